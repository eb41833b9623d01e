"""Canonical terms: polynomials with rational coefficients over hash-consed atoms.

The decision procedure for equality is canonicalisation: every constructor (mk_*) returns a term in normal form, two
terms are equal when their normal forms are identical (complete enough in practice, sound up to the axioms listed here):
  * reals are mathematical reals, division is total with x*x^-1 = 1 (callers state "denominators are non-zero")
  * sums over index ranges are linear, independent factors leave the sum, nested sums are flattened and split into
    independent factors, sum_k [k==t] f(k) = [0<=t<n] f(t), block sums  sum_{k<R*S} g(k div S, k mod S) are split,
    sums over a filtered sequence become guarded sums over the base range
  * 0/1-valued indicators are idempotent; indicators are lifted out of function arguments (Shannon expansion)
"""
import itertools
from fractions import Fraction as Fr
import hashlib, itertools, math

class Unsupported(Exception):
    """construct outside the verifier's reach (never reported as a violation)"""

# ----------------------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('kind', 'args', 'skey', 'fv', 'h', 'sort', 'idem', '_poly')
    def __repr__(self): return pp_atom(self)

class Poly:
    __slots__ = ('t', 'fv', 'h', '_sk')
    def __repr__(self): return pp(self)
    def __add__(self, o): return add(self, lift(o))
    __radd__ = __add__
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return mul(self, mk_pow(lift(o), -1))
    def __rtruediv__(self, o): return mul(lift(o), mk_pow(self, -1))
    def __pow__(self, q): return mk_pow(self, q)
    def __neg__(self): return neg(self)

_atoms = {}
_polys = {}
EMPTY = frozenset()

def _sha(s): return hashlib.sha1(s.encode()).hexdigest()[:16]

def _mkpoly(t):
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = t
        fv = set(); h = 0
        for m in t:
            for a, e in m:
                fv |= a.fv
                if a.h > h: h = a.h
        p.fv = frozenset(fv); p.h = h; p._sk = None
        _polys[key] = p
    return p

def skey(p):
    """structural key; its first half does not depend on the names of index variables (stable under renaming)"""
    if p._sk is None:
        it1 = sorted('%s*%s' % (c, '.'.join(sorted('%s^%s' % (a.skey[:16], e) for a, e in m))) for m, c in p.t.items())
        it2 = sorted('%s*%s' % (c, '.'.join('%s^%s' % (a.skey, e) for a, e in m)) for m, c in p.t.items())
        p._sk = _sha('+'.join(it1)) + _sha('+'.join(it2))
    return p._sk

def _anon(n): return '?' if n[:1] == '#' or '~' in n else n
def _argkey0(x):
    if isinstance(x, Poly): return skey(x)[:16]
    if isinstance(x, Atom): return x.skey[:16]
    if isinstance(x, tuple): return '(' + ','.join(_argkey0(y) for y in x) + ')'
    if isinstance(x, str): return _anon(x)
    return str(x)

def _argkey(x):
    if isinstance(x, Poly): return skey(x)
    if isinstance(x, Atom): return x.skey
    if isinstance(x, tuple): return '(' + ','.join(_argkey(y) for y in x) + ')'
    return str(x)

def _fvh(x):
    if isinstance(x, (Poly, Atom)): return x.fv, x.h
    if isinstance(x, tuple):
        fv = set(); h = 0
        for y in x:
            f, hh = _fvh(y); fv |= f; h = max(h, hh)
        return fv, h
    return EMPTY, 0

IDEM = {'le', 'lt', 'eq'}
def atom(kind, args, sort='r', bound=()):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind; a.args = args; a.sort = sort
        a.skey = _sha(kind + ':' + sort + ':' + '|'.join(_argkey0(x) for x in args)) + _sha(kind + ':' + sort + ':' + '|'.join(_argkey(x) for x in args))
        fv, h = _fvh(args)
        if kind == 'var': fv = frozenset([args[0]])
        a.fv = frozenset(fv) - frozenset(bound)
        a.h = h + len(bound) if bound else h
        a.idem = kind in IDEM or sort == 'b'
        a._poly = None
        _atoms[key] = a
    return a

def apoly(a, e=1):
    if e == 1:
        if a._poly is None: a._poly = _mkpoly({((a, 1),): Fr(1)})
        return a._poly
    return norm_mono({a: e})

ZERO = _mkpoly({})
ONE = _mkpoly({(): Fr(1)})
_consts = {}
def const(c):
    if c.__class__ is not Fr:
        if isinstance(c, bool): c = Fr(int(c))
        elif isinstance(c, int): c = Fr(c)
        elif isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')): raise Unsupported('non-finite constant %r' % c)
            n = nice(float(c))
            if n is not None: return n
            c = Fr(repr(float(c)))
        else: c = Fr(c)
    if c == 0: return ZERO
    p = _consts.get(c)
    if p is None: p = _consts[c] = _mkpoly({(): c})
    return p

_nice = {}
def nice(x):
    """closed form of a computed float constant: rational multiples of sqrt(n) * pi^(k/2) (to within rounding)"""
    if len(repr(abs(x)).replace('.', '').strip('0')) < 15 or 'e' in repr(x): return None
    if x in _nice: return _nice[x]
    r = None
    for k in (0, Fr(1, 2), 1, Fr(-1, 2), -1, 2, -2):
        w = (x / math.pi ** float(k)) ** 2
        if not 1e-9 < w < 1e9: continue
        f = Fr(w).limit_denominator(200)
        if f.numerator < 5000 and abs(float(f) - w) <= 1.5e-15 * w:
            r = mk_sqrt(const(f))
            if k: r = mul(r, mk_pow(mk_pi(), Fr(k)))
            if x < 0: r = neg(r)
            break
    _nice[x] = r
    return r

def lift(x):
    if isinstance(x, Poly): return x
    return const(x)

def isconst(p): return not p.t or (len(p.t) == 1 and () in p.t)
def cval(p): return p.t.get((), Fr(0)) if p.t else Fr(0)

def add(p, q):
    if not p.t: return q
    if not q.t: return p
    if len(p.t) < len(q.t): p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        c2 = t.get(m, 0) + c
        if c2 == 0: t.pop(m, None)
        else: t[m] = c2
    return _mkpoly(t)

def psum(ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            c2 = t.get(m, 0) + c
            if c2 == 0: t.pop(m, None)
            else: t[m] = c2
    return _mkpoly(t)

def neg(p): return _mkpoly({m: -c for m, c in p.t.items()})
def scale(p, c):
    c = Fr(c)
    if c == 0: return ZERO
    if c == 1: return p
    return _mkpoly({m: v * c for m, v in p.t.items()})

def sub(p, q): return add(p, neg(q))

MAXTERMS = 60000
_mm_cache = {}
def mono_mul(m1, m2):
    """product of two monomials, as a Poly"""
    if not m1: return None, m2
    if not m2: return None, m1
    key = (m1, m2)
    r = _mm_cache.get(key)
    if r is not None: return r
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    p = norm_mono(d)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = (None, m) if c == 1 else (p, None)
    else: r = (p, None)
    if len(_mm_cache) > 400000: _mm_cache.clear()
    _mm_cache[key] = r
    return r

def mul(p, q):
    if not p.t or not q.t: return ZERO
    if p is ONE: return q
    if q is ONE: return p
    if isconst(p): return scale(q, cval(p))
    if isconst(q): return scale(p, cval(q))
    if len(p.t) * len(q.t) > MAXTERMS: raise Unsupported('polynomial too large')
    t = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            pp_, m = mono_mul(m1, m2)
            c = c1 * c2
            if pp_ is None:
                v = t.get(m, 0) + c
                if v == 0: t.pop(m, None)
                else: t[m] = v
            else:
                for mm, cc in pp_.t.items():
                    v = t.get(mm, 0) + c * cc
                    if v == 0: t.pop(mm, None)
                    else: t[mm] = v
    return _mkpoly(t)

def prod(ps):
    r = ONE
    for p in ps: r = mul(r, p)
    return r

def ipow(p, n):
    r = ONE
    while n:
        if n & 1: r = mul(r, p)
        n >>= 1
        if n: p = mul(p, p)
    return r

def _int(e):
    if isinstance(e, int): return e
    if e.denominator == 1: return int(e)
    return e

def mono_key(m):
    return (sum((abs(e) for a, e in m), Fr(0)), tuple((a.skey, e) for a, e in m))
def _lead_key(atoms):
    def k(m):
        d = dict(m)
        return (sum((e for a, e in m), Fr(0)), tuple(d.get(a, 0) for a in atoms))
    return k

def lead(p):
    """leading monomial and coefficient of a base polynomial"""
    r = _lead_cache.get(p)
    if r is None:
        atoms = sorted({a for m in p.t for a, e in m}, key=lambda a: a.skey)
        m = max(p.t, key=_lead_key(atoms))
        r = _lead_cache[p] = (m, p.t[m])
    return r
_lead_cache = {}

def divides(m, d):
    for a, e in m:
        if a not in d: return False
        f = d[a]
        if e > 0:
            if f < e: return False
        elif f > e: return False
    return True

def norm_mono(d, coef=Fr(1)):
    """d: dict atom->exponent. Apply the rewrite rules that concern a single product."""
    extra = None        # Poly to multiply in
    out = {}
    exps = []
    for a, e in d.items():
        if e == 0: continue
        if a.idem:
            out[a] = 1; continue
        k = a.kind
        if k == 'pb':
            if e > 0:
                ip = int(e) if isinstance(e, int) else (e.numerator // e.denominator)
                fr = e - ip
                if ip:
                    x = ipow(a.args[0], ip)
                    extra = x if extra is None else mul(extra, x)
                if fr: out[a] = fr
                continue
            out[a] = _int(e); continue
        if k == 'num':
            fl = math.floor(e); fr = e - fl
            coef = coef * (Fr(a.args[0]) ** fl)
            if fr: out[a] = fr
            continue
        if k == 'abs':
            e = _int(e)
            if isinstance(e, int) and (e >= 2 or e <= -2):
                h = int(e / 2)
                x = mk_pow(a.args[0], 2 * h)
                extra = x if extra is None else mul(extra, x)
                e = e - 2 * h
            if e: out[a] = e
            continue
        if k == 'fun' and a.args[0] == 'exp':
            exps.append((a, e)); continue
        out[a] = _int(e)
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            out[exps[0][0]] = 1
        else:
            x = mk_exp(psum(scale(a.args[1], e) for a, e in exps))
            extra = x if extra is None else mul(extra, x)
    # interplay of comparison atoms over the same polynomial
    cmpz = None
    for a in out:
        if a.kind in IDEM:
            if cmpz is None: cmpz = {}
            cmpz.setdefault(a.args[0], []).append(a)
    if cmpz:
        for p, l in cmpz.items():
            if len(l) > 1:
                ks = {a.kind: a for a in l}
                if 'lt' in ks and 'eq' in ks: return ZERO
                if 'le' in ks and ('lt' in ks or 'eq' in ks): del out[ks['le']]
        if len(cmpz) > 1 and _order_conflict(cmpz, out): return ZERO
    if extra is not None:
        m = tuple(sorted(out.items(), key=lambda x: x[0].skey))
        return scale(mul(_mkpoly({m: Fr(1)}), extra), coef)
    # reduction by a denominator's leading monomial:  LM * P^-j -> P^-(j-1) - rest * P^-j
    for a, e in out.items():
        if a.kind == 'pb' and e < 0:
            P = a.args[0]
            if len(P.t) > 6: continue
            lm, lc = lead(P)
            if lm and divides(lm, out):
                r = dict(out)
                for b, f in lm: r[b] = r[b] - f
                rest = _mkpoly({m: c for m, c in P.t.items() if m != lm})
                r1 = dict(r); r1[a] = e + 1
                t1 = norm_mono(r1)
                t2 = mul(norm_mono(r), rest)
                return scale(sub(t1, t2), coef / lc)
    m = tuple(sorted(out.items(), key=lambda x: x[0].skey))
    return _mkpoly({m: coef})

def _order_conflict(cmpz, out):
    """x<=a together with x>b for b>=a cannot arise in this normal form (complements are 1-le); only handle
    p<=0 (tighter) making q=p+c<=0 (c<0) redundant."""
    ps = list(cmpz)
    for p in ps:
        for q in ps:
            if p is q: continue
            dlt = sub(q, p)
            if isconst(dlt) and cval(dlt) < 0:
                # q = p - c, c>0 :  p<=0 implies q<0 ; q==0 contradicts p<=0.
                for a in list(cmpz[q]):
                    if a not in out: continue
                    if any(b in out for b in cmpz[p]):
                        if a.kind in ('le', 'lt'): del out[a]
                        elif a.kind == 'eq': return True
    return False

# ------------------------------------------------------------------------------------------------------------- variables
_fresh = itertools.count()
def fresh(prefix='v', sort='i'):
    return '%s~%d' % (prefix, next(_fresh))
def var(name, sort='i'): return apoly(atom('var', (name,), sort))

def is_int_atom(a):
    k = a.kind
    if a.idem: return True
    if k in ('var', 'app'): return a.sort == 'i'
    if k in ('div', 'sel', 'rank'): return True
    if k == 'sum': return all(is_int_atom(x) for m in a.args[2].t for x, e in m)
    if k in ('red',): return a.sort == 'i'
    return False
def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1: return False
        for a, e in m:
            if not isinstance(e, int) or e < 0 or not is_int_atom(a): return False
    return True

# --------------------------------------------------------------------------------------------------------- sign knowledge
def nonneg_atom(a, e=1):
    if not isinstance(e, int): return True          # rational power (sqrt) is non-negative
    if e % 2 == 0: return True
    k = a.kind
    if a.idem or k in ('relu', 'abs', 'num', 'pi'): return True
    if k == 'fun' and a.args[0] in ('exp', 'Phi', 'phi', 'chi2ppf', 'cosh'): return True
    if k == 'sum': return nonneg(a.args[2])
    if k in ('div', 'sel', 'rank'): return k != 'div' or nonneg(a.args[0])
    if k == 'var': 
        return a.args[0] in CTX.varrange or a.args[0] in CTX.nonnegvars or a.args[0].startswith('#') or CTX.lower.get(a.args[0], -1) >= 0
    if k == 'app': return a.args[0] in CTX.appnonneg
    if k == 'pb':
        return nonneg(a.args[0])
    return False
def nonneg(p):
    for m, c in p.t.items():
        if c < 0: return False
        for a, e in m:
            if not nonneg_atom(a, e): return False
    return True

def nonneg_lb(p):
    """p >= 0 by the lower bounds of its dimensions (p linear in them with nonnegative coefficients)"""
    c0 = 0
    for m, c in p.t.items():
        if m == (): c0 += c; continue
        if c < 0 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'var': return False
        lb = CTX.lower.get(m[0][0].args[0])
        if lb is None: return False
        c0 += c * lb
    return c0 >= 0

# ------------------------------------------------------------------------------------------------------ Shannon expansion
def _top_inds(p, limit=7):
    s = set()
    for m in p.t:
        for a, e in m:
            if a.idem: s.add(a)
            if len(s) > limit: return None
    return s

def cofactor(p, a):
    """(p with a:=1, p with a:=0) at top level"""
    t1 = {}; t0 = {}
    for m, c in p.t.items():
        if any(b is a for b, e in m):
            m2 = tuple(x for x in m if x[0] is not a)
            t1[m2] = t1.get(m2, 0) + c
        else:
            t0[m] = t0.get(m, 0) + c
            t1[m] = t1.get(m, 0) + c
    return _mkpoly({m: c for m, c in t1.items() if c}), _mkpoly({m: c for m, c in t0.items() if c})

def shannon(args, f):
    """apply f to args (tuple of Poly) after lifting indicators out of them"""
    s = set()
    for p in args:
        x = _top_inds(p)
        if x is None: return f(args)
        s |= x
    if not s: return f(args)
    if len(s) > 7: return f(args)
    a = min(s, key=lambda x: x.skey)
    co = [cofactor(p, a) for p in args]
    r1 = shannon(tuple(c[0] for c in co), f)
    r0 = shannon(tuple(c[1] for c in co), f)
    if r1 is r0: return r1
    return add(r0, mul(apoly(a), sub(r1, r0)))

def bool_not(b): return sub(ONE, b)
def bool_or(a, b): return sub(add(a, b), mul(a, b))
def ite(c, a, b):
    if c is ONE: return a
    if not c.t: return b
    if a is b: return a
    d = sub(a, b)
    # clipping forms: [p<=0] * l*p
    if len(c.t) <= 2:
        at = None; compl = False
        if len(c.t) == 1:
            (m, cc), = c.t.items()
            if cc == 1 and len(m) == 1: at = m[0][0]
        elif c.t.get(()) == 1:
            (m, cc), = [(m, x) for m, x in c.t.items() if m]
            if cc == -1 and len(m) == 1: at = m[0][0]; compl = True
        if at is not None and at.kind in ('le', 'lt'):
            p = at.args[0]
            r = ratio(d, p)
            if r is not None:
                # value b + [cond] r*p
                if not compl: return add(b, scale(sub(mk_relu(p), p), -r))       # p*[p<=0] = p - relu(p)
                return add(b, scale(mk_relu(p), r))                              # p*[p>0] = relu(p)
    return add(b, mul(c, d))

def ratio(p, q):
    """rational r with p = r*q, or None"""
    if len(p.t) != len(q.t) or not q.t: return None
    r = None
    for m, c in q.t.items():
        if m not in p.t: return None
        x = p.t[m] / c
        if r is None: r = x
        elif r != x: return None
    return r

# ------------------------------------------------------------------------------------------------------------------ powers
def _factor(n):
    f = {}; p = 2
    while p * p <= n and p < 100000:
        while n % p == 0: f[p] = f.get(p, 0) + 1; n //= p
        p += 1 if p == 2 else 2
    if n > 1: f[n] = f.get(n, 0) + 1
    return f

def num_pow(c, q):
    """c>0 rational to rational power"""
    q = Fr(q)
    if q.denominator == 1: return const(c ** int(q))
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _factor(n).items():
            a = atom('num', (pr,))
            d[a] = d.get(a, 0) + s * k * q
    return norm_mono(d)

def content(p, signed=True):
    """(content c, primitive poly) with p = c*prim; prim's leading coefficient positive when signed"""
    g = 0; l = 1
    for c in p.t.values():
        g = math.gcd(g, abs(c.numerator)); l = l * c.denominator // math.gcd(l, c.denominator)
    c = Fr(g, l)
    if signed and lead(p)[1] < 0: c = -c
    return c, scale(p, 1 / c)

def mono_gcd(p):
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        mm = dict(m)
        for a in list(d):
            if a not in mm or (mm[a] > 0) != (d[a] > 0): del d[a]
            else: d[a] = min(d[a], mm[a]) if d[a] > 0 else max(d[a], mm[a])
        if not d: break
    # negative exponents present only in some monomials: bring to common denominators
    neg_ = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and not a.idem: neg_[a] = min(neg_.get(a, 0), e)
    for a, e in neg_.items(): d[a] = e
    return {a: e for a, e in d.items() if e != 0}

def mk_pow(p, q):
    p = lift(p); q = Fr(q) if not isinstance(q, Fr) else q
    if q.denominator == 1 and q >= 0: return ipow(p, int(q))
    return shannon((p,), lambda a: _pow1(a[0], q))

def _pow1(p, q):
    if not p.t: return ZERO
    if p is ONE: return ONE
    half = q.denominator != 1
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mul(_cpow(c, q, half), _mpow(m, q, half)) if not (half and c < 0) else apoly(atom('pb', (p,)), q)
    d = mono_gcd(p)
    if half: d = {a: e for a, e in d.items() if nonneg_atom(a, e)}
    fac = ONE
    if d:
        inv = norm_mono({a: -e for a, e in d.items()})
        p2 = mul(p, inv)
        if len(p2.t) < 2 or len(p2.t) > len(p.t):
            p2 = p
        else:
            fac = _mpow(tuple(sorted(d.items(), key=lambda x: x[0].skey)), q, half)
            p = p2
    if len(p.t) == 1:
        return mul(fac, _pow1(p, q))
    c, prim = content(p, signed=not half)
    if half:
        c = abs(c)
    for k in (2, 3):
        if half and k == 2: continue
        rt = poly_root(prim, k)
        if rt is not None:
            return mul(fac, mul(_cpow(c, q, half), mk_pow(rt, q * k)))
    if half:
        rt = poly_root(prim, 2)
        if rt is not None:
            return mul(fac, mul(_cpow(c, q, half), mk_pow(mk_abs(rt), q * 2)))
    r = apoly(atom('pb', (prim,)), _int(q))
    return mul(fac, mul(_cpow(c, q, half), r))

def _iroot(n, k):
    if n < 0: return None
    r = round(n ** (1.0 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n: return x
    return None
_root_cache = {}
def poly_root(p, k):
    key = (p, k)
    if key in _root_cache: return _root_cache[key]
    r = _poly_root(p, k)
    _root_cache[key] = r
    return r
def _poly_root(p, k):
    if len(p.t) < 3 or len(p.t) > 200: return None
    for m in p.t:
        for a, e in m:
            if not isinstance(e, int) or e < 0 or a.idem or a.kind in ('pb', 'abs', 'num') or (a.kind == 'fun' and a.args[0] == 'exp'): return None
    lm, lc = _lexlead(p)
    if lc < 0: return None
    n, d = _iroot(lc.numerator, k), _iroot(lc.denominator, k)
    if n is None or d is None: return None
    q = {}
    for a, e in lm:
        if e % k: return None
        q[a] = e // k
    q0m = tuple(sorted(q.items(), key=lambda x: x[0].skey))
    c0 = Fr(n, d)
    Q = _mkpoly({q0m: c0})
    den = dict(ipow(Q, k - 1).t)
    (dm, dc), = den.items()
    for _ in range(len(p.t) + 1):
        R = sub(p, ipow(Q, k))
        if not R.t: return Q
        m, c = _lexlead(R)
        dd = dict(m)
        for a, e in dm:
            if dd.get(a, 0) < e: return None
            dd[a] = dd[a] - e
        t = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda x: x[0].skey))
        if t in Q.t: return None
        Q = add(Q, _mkpoly({t: c / (k * dc)}))
        if len(Q.t) > 8: return None
    return None
def _lexlead(p):
    """leading monomial in a lexicographic order (multiplicative)"""
    atoms = sorted({a for m in p.t for a, e in m}, key=lambda a: a.skey)
    best = max(p.t, key=lambda m: tuple(dict(m).get(a, 0) for a in atoms))
    return best, p.t[best]

def _cpow(c, q, half):
    if not half: return const(c ** int(q))
    return num_pow(c, q)

def _mpow(m, q, half):
    if not m: return ONE
    if not half:
        return norm_mono({a: e * int(q) for a, e in m})
    out = {}; extra = ONE; rest = {}
    for a, e in m:
        if nonneg_atom(a, 1): out[a] = e * q
        elif isinstance(e, int) and e % 2 == 0:
            x = mk_abs(apoly(a))
            extra = mul(extra, mk_pow(x, e * q))
        else: rest[a] = e
    r = mul(norm_mono(out), extra)
    if rest:
        if len(rest) == 1:
            (a, e), = rest.items()
            r = mul(r, norm_mono({a: _int(e * q)}))
        else:
            r = mul(r, norm_mono({atom('pb', (norm_mono(rest),)): _int(q)}))
    return r

def mk_sqrt(p): return mk_pow(p, Fr(1, 2))

def mk_relu(p):
    p = lift(p)
    return shannon((p,), lambda a: _relu1(a[0]))
def _relu1(p):
    if isconst(p): return p if cval(p) > 0 else ZERO
    if nonneg(p): return p
    if nonneg(scale(p, -1)): return ZERO
    c, prim = content(p, signed=True)
    if c > 0: return scale(apoly(atom('relu', (prim,))), c)
    return add(scale(apoly(atom('relu', (prim,))), -c), p)    # relu(-|c| q) = |c| relu(q) - |c| q
def mk_max(a, b): return add(b, mk_relu(sub(a, b)))
def mk_min(a, b): return sub(a, mk_relu(sub(a, b)))
def mk_abs(p):
    p = lift(p)
    return shannon((p,), lambda a: _abs1(a[0]))
def _abs1(p):
    if isconst(p): return const(abs(cval(p)))
    if nonneg(p): return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(abs(c))
        for a, e in m:
            if nonneg_atom(a, e): r = mul(r, norm_mono({a: e}))
            else: r = mul(r, norm_mono({atom('abs', (apoly(a),)): e}))
        return r
    c, prim = content(p, signed=True)
    return scale(apoly(atom('abs', (prim,))), abs(c))

# --------------------------------------------------------------------------------------------------------------- functions
PI = None
def mk_pi(): return apoly(atom('pi', ()))
def mk_log(p):
    p = lift(p)
    return shannon((p,), lambda a: _log1(a[0]))
def _log1(p):
    if not p.t: return apoly(atom('fun', ('log', ZERO)))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0:
            r = ZERO
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for pr, k in _factor(n).items():
                    r = add(r, scale(apoly(atom('fun', ('log', const(pr)))), s * k))
            for a, e in m:
                if a.kind == 'num': r = add(r, scale(apoly(atom('fun', ('log', const(a.args[0])))), e))
                elif a.kind == 'fun' and a.args[0] == 'exp': r = add(r, scale(a.args[1], e))
                elif a.kind == 'pb': r = add(r, scale(_log1(a.args[0]), e))
                elif isinstance(e, int) and e % 2 == 0 and not nonneg_atom(a, 1):
                    r = add(r, scale(apoly(atom('fun', ('log', mk_abs(apoly(a))))), e))
                else: r = add(r, scale(apoly(atom('fun', ('log', apoly(a)))), e))
            return r
    d = mono_gcd(p)
    d = {a: e for a, e in d.items() if nonneg_atom(a, 1)}
    if d and len(p.t) > 1:
        inv = norm_mono({a: -e for a, e in d.items()})
        p2 = mul(p, inv)
        if 1 <= len(p2.t) <= len(p.t):
            return add(_log1(norm_mono(d)), _log1(p2)) if len(p2.t) > 1 else add(_log1(norm_mono(d)), _log1(p2))
    c, prim = content(p, signed=False)
    r = apoly(atom('fun', ('log', prim)))
    if c != 1: r = add(r, _log1(const(c)))
    return r
def mk_exp(p):
    p = lift(p)
    return shannon((p,), lambda a: ONE if not a[0].t else apoly(atom('fun', ('exp', a[0]))))
def mk_fun(name, *args):
    if name == 'log': return mk_log(args[0])
    if name == 'exp': return mk_exp(args[0])
    return shannon(tuple(lift(a) for a in args), lambda a: _fun1(name, a))
def _fun1(name, a):
    if name == 'Phi':                      # standard normal cdf
        if not a[0].t: return const(Fr(1, 2))
        if lead(a[0])[1] < 0: return sub(ONE, apoly(atom('fun', ('Phi', neg(a[0])))))
    if name in ('cosh',):
        if not a[0].t: return ONE
        if lead(a[0])[1] < 0: a = (neg(a[0]),)
    return apoly(atom('fun', (name,) + tuple(a)))

# ------------------------------------------------------------------------------------------------------------- comparisons
def mk_le(p): return shannon((lift(p),), lambda a: _cmp('le', a[0]))     # p <= 0
def mk_lt(p): return shannon((lift(p),), lambda a: _cmp('lt', a[0]))     # p < 0
def mk_eq(p): return shannon((lift(p),), lambda a: _cmp('eq', a[0]))     # p == 0
def mk_ge0(p): return mk_le(neg(lift(p)))

def _cmp(kind, p):
    if isconst(p):
        c = cval(p)
        return ONE if (c <= 0 if kind == 'le' else c < 0 if kind == 'lt' else c == 0) else ZERO
    if kind == 'le' and len(p.t) == 1 and nonneg(p) and is_int(p) and list(p.t)[0][0][0].kind == 'var' and len(list(p.t)[0]) == 1: kind = 'eq'
    if len(p.t) <= 2:
        l = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] in CTX.unit]
        if len(l) == 1 and (len(p.t) == 1 or () in p.t):        # c*u + d with 0 <= u < 1
            c = l[0][1]; d = p.t.get((), Fr(0))
            if c > 0:
                if c + d <= 0: return ZERO if kind == 'eq' else ONE
                if d > 0 or d == 0 and kind == 'lt': return ZERO
            else:
                if c + d >= 0: return ZERO
                if d < 0 or d == 0 and kind == 'le': return ZERO if kind == 'eq' else ONE
    if kind != 'eq' and len(p.t) <= 4:
        b = _below_max(p)
        if b is not None and (b <= 0 if kind == 'le' else b < 0): return ONE
        b = _below_max(neg(p))
        if b is not None and (b < 0 if kind == 'le' else b <= 0): return ZERO
    if len(p.t) == 2 and CTX.increasing:
        l = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] in CTX.increasing]
        if len(l) == 2 and l[0][1] == -l[1][1] and l[0][0].args[0] == l[1][0].args[0]:
            d = sub(l[0][0].args[1], l[1][0].args[1])
            return {'le': mk_le, 'lt': mk_lt, 'eq': mk_eq}[kind](d if l[0][1] > 0 else neg(d))
    if is_int(p):
        if kind == 'lt': p = add(p, ONE); kind = 'le'
        g = 0
        for m, c in p.t.items():
            if m: g = math.gcd(g, int(c))
        c0 = p.t.get((), Fr(0))
        if kind == 'eq':
            if c0 % g != 0: return ZERO
            p = scale(p, Fr(1, g))
            if lead(p)[1] < 0: p = neg(p)
            if not c0 and all(len(m) == 1 and m[0][0].kind == 'sum' for m in p.t) and nonneg(p): return _cmp('le', p)
            return _cmpatom('eq', p)
        t = {m: c / g for m, c in p.t.items() if m}
        k = Fr(math.ceil(c0 / g))
        if k: t[()] = k
        p = _mkpoly(t)
        if isconst(p): return _cmp('le', p)
        if _leadnc(p) < 0: return sub(ONE, _cmpatom('le', add(neg(p), ONE)))
        return _cmpatom('le', p)
    c, prim = content(p, signed=False)
    s = _leadnc(prim)
    if kind == 'eq':
        return _cmpatom('eq', prim if s > 0 else neg(prim))
    if s > 0: return _cmpatom(kind, prim)
    # -q <= 0  <=>  not (q < 0)
    return sub(ONE, _cmpatom('lt' if kind == 'le' else 'le', neg(prim)))

def _below_max(p):
    """a constant b with p <= b, when p compares an element with the maximum (minimum) over a range that contains it"""
    for m, c in p.t.items():
        if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'relu':              # -relu(q) <= -q
            return _below_max(add(p, scale(sub(apoly(m[0][0]), m[0][0].args[0]), -c)))
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'red': continue
        name, bn, ranges, bodies, extra = m[0][0].args
        if name not in ('max', 'min') or (c > 0) != (name == 'min') or len(bn) > 2: continue
        f, g = bodies
        rest = scale(sub(p, scale(apoly(m[0][0]), c)), Fr(1) / abs(c))        # max: rest - max <= rest - f(k);  min: min + rest <= f(k) + rest
        cands = [[v for v in sorted(rest.fv) if CTX.varrange.get(v) is r] + ([ZERO] if CTX.lower.get(the_name(r)) else []) for r in ranges]
        for ks in itertools.product(*cands):
            mp = {b: (var(k) if isinstance(k, str) else k) for b, k in zip(bn, ks)}
            if subst(g, mp) is not ONE: continue
            d = sub(rest, subst(f, mp)) if name == 'max' else add(rest, subst(f, mp))
            if isconst(d): return cval(d)
    return None
def the_name(r):
    """name of the variable r, if it is one"""
    return next(iter(r.fv)) if len(r.fv) == 1 and r is var(next(iter(r.fv))) else None

def _leadnc(p):
    m = max((m for m in p.t if m), key=mono_key)
    return p.t[m]

def _cmpatom(kind, p):
    d = CTX.decide(kind, p)
    if d is not None: return ONE if d else ZERO
    return apoly(atom(kind, (p,)))

# --------------------------------------------------------------------------------------------------- uninterpreted functions
def mk_app(name, args, sort='r'):
    return shannon(tuple(lift(a) for a in args), lambda a: _app1(name, a, sort))
def _one_app(p, name):
    """the argument x if p is name(x)"""
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == name and len(m[0][0].args) == 2: return m[0][0].args[1]
    return None
def _app1(name, a, sort):
    if CTX.injective and len(a) == 1:
        for f, (n, inset, pos) in CTX.injective.items():
            if name == f:
                x = _one_app(a[0], pos)
                if x is not None: return x
            elif name in (inset, pos):
                x = _one_app(a[0], f)
                if x is not None and in_range(x, n) is ONE: return ONE if name == inset else x
    at = atom('app', (name,) + tuple(a), sort)
    if sort == 'b':
        d = CTX.decide_b(at)
        if d is not None: return ONE if d else ZERO
    if name in CTX.appdefs:
        return CTX.appdefs[name](*a)
    return apoly(at)

def mk_div(a, b):
    return shannon((lift(a), lift(b)), lambda x: _div1(x[0], x[1]))
def _div1(a, b):
    if b is ONE: return a
    if isconst(a) and isconst(b): return const(cval(a) // cval(b)) if cval(b) != 0 else ZERO
    q = ZERO; r = a
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        qt = {}; rt = {}
        for m, c in a.t.items():
            if divides(bm, dict(m)) and (not isconst(b)):
                d = dict(m)
                for x, e in bm: d[x] -= e
                cc = c / bc
                if cc.denominator == 1:
                    mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].skey))
                    qt[mm] = qt.get(mm, 0) + cc; continue
            if isconst(b) and (c / bc).denominator == 1:
                qt[m] = c / bc; continue
            rt[m] = c
        q = _mkpoly(qt); r = _mkpoly(rt)
    else:
        # polynomial divisor (e.g. a count): try exact multiples of b in a
        lm, lc = lead(b)
        rr = a; qq = ZERO
        for _ in range(4):
            hit = None
            for m, c in rr.t.items():
                d = dict(m)
                if lm and divides(lm, d):
                    for x, e in lm: d[x] -= e
                    hit = _mkpoly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].skey)): c / lc})
                    break
            if hit is None: break
            qq = add(qq, hit); rr = sub(rr, mul(hit, b))
        if len(rr.t) <= len(a.t): q, r = qq, rr
    if not r.t: return q
    if CTX.decide_le(neg(r)) and CTX.decide_le(add(sub(r, b), ONE)): return q
    return add(q, apoly(atom('div', (r, b), 'i')))
def mk_mod(a, b):
    a = lift(a); b = lift(b)
    return sub(a, mul(b, mk_div(a, b)))

# -------------------------------------------------------------------------------------------------------------- binders
def close(names, ranges, body):
    """canonical (ranges, body) with bound variables renamed '#h+1'.. ; returns (bound_names, ranges, body)"""
    h = max([body.h] + [r.h for r in ranges])
    n = len(names)
    bn = ['#%d' % (h + 1 + i) for i in range(n)]
    if n == 1:
        b = subst(body, {names[0]: var(bn[0])})
        return tuple(bn), (ranges[0],), b
    best = None
    groups = {}
    for i, r in enumerate(ranges): groups.setdefault(skey(r), []).append(i)
    cnt = 1
    for gr in groups.values():
        for i in range(2, len(gr) + 1): cnt *= i
    order = [groups[k] for k in sorted(groups)]
    if cnt <= 120: perms = (sum(c, ()) for c in itertools.product(*[list(itertools.permutations(gr)) for gr in order]))
    else: perms = [tuple(i for gr in order for i in gr)]
    for perm in perms:
        mp = {names[p]: var(bn[i]) for i, p in enumerate(perm)}
        b = subst(body, mp)
        rs = tuple(ranges[p] for p in perm)
        k = (tuple(skey(r) for r in rs), skey(b))
        if best is None or k < best[0]: best = (k, rs, b)
    return tuple(bn), best[1], best[2]

def open_sum(a):
    """fresh names, ranges, body of a 'sum' atom"""
    bn, ranges, body = a.args
    names = []
    mp = {}
    for b, r in zip(bn, ranges):
        v = fresh('k'); CTX.varrange[v] = r
        names.append(v); mp[b] = var(v)
    return names, list(ranges), subst(body, mp)

def Sigma(n, f):
    n = lift(n)
    if isconst(n) and cval(n) <= 8:
        return psum(f(const(i)) for i in range(int(cval(n))))
    v = fresh('k'); CTX.varrange[v] = n
    return mk_sum([(v, n)], f(var(v)))

def depends(p, names):
    fv = p.fv
    for n in names:
        if n in fv: return True
    return False

def mk_sum(binders, body):
    out = []
    for m, c in body.t.items():
        out.append(scale(_sum_mono(list(binders), m), c))
    return psum(out)

def _sum_mono(binders, m):
    names = [b[0] for b in binders]
    indep = {}; dep = {}
    for a, e in m:
        if any(n in a.fv for n in names): dep[a] = e
        else: indep[a] = e
    # ranges depending on other binders are not supported in this normal form except via guards
    res = norm_mono(indep)
    # flatten nested sums
    for a, e in list(dep.items()):
        if a.kind == 'sum' and e == 1:
            if a in _opaque_sums(dep): continue
            ns, rs, b = open_sum(a)
            rest = dict(dep); del rest[a]
            inner = mul(norm_mono(rest), b)
            if any(depends(r, names) for r in rs):
                # dependent range: turn into guard over a larger independent range is not possible in general
                continue
            return mul(res, mk_sum(binders + list(zip(ns, rs)), inner))
    # unused binders
    for i, (v, n) in enumerate(binders):
        if not any(v in a.fv for a in dep) and not any(v in b[1].fv for b in binders):
            rest = binders[:i] + binders[i + 1:]
            r = mul(res, n)
            if not rest: return mul(r, norm_mono(dep))
            return mul(r, mk_sum(rest, norm_mono(dep)))
    # a range with a positive constant part: split off the last elements
    for i, (v, n) in enumerate(binders):
        c = n.t.get((), 0)
        if 0 < c <= 4 and c.denominator == 1 and len(n.t) > 1 and not any(v in b[1].fv for b in binders):
            n0 = sub(n, const(c))
            if not nonneg(n0): continue
            rest = binders[:i] + binders[i + 1:]
            body = norm_mono(dep)
            CTX.varrange[v] = n0
            outp = [mk_sum(rest + [(v, n0)], body)]
            for j in range(int(c)):
                t = subst(body, {v: add(n0, const(j))})
                outp.append(mk_sum(rest, t) if rest else t)
            return mul(res, psum(outp))
    # a range with a negative constant part whose body only speaks of v + c: count from the other end of the offset
    for i, (v, n) in enumerate(binders):
        c = -n.t.get((), 0)
        if 0 < c <= 4 and c.denominator == 1 and len(n.t) > 1 and not any(v in b[1].fv for b in binders) and nonneg_lb(n):
            body = norm_mono(dep)
            shifted = subst(body, {v: sub(var(v), const(c))})
            if len(str(shifted)) < len(str(body)):
                rest = binders[:i] + binders[i + 1:]
                CTX.varrange[v] = add(n, const(c))
                outp = [mk_sum(rest + [(v, add(n, const(c)))], shifted)]
                for j in range(int(c)):
                    t = subst(shifted, {v: const(j)})
                    outp.append(neg(mk_sum(rest, t) if rest else t))
                return mul(res, psum(outp))
    # eliminate a binder through an equality / block guard / filtered selection / block split
    for i, (v, n) in enumerate(binders):
        if any(v in b[1].fv for b in binders): continue
        r = _eliminate(v, n, dep)
        if r is not None:
            rest = binders[:i] + binders[i + 1:]
            newb, poly = r
            rest = rest + newb
            if not rest: return mul(res, poly)
            return mul(res, mk_sum(rest, poly))
    # fold back a part of the product that is a sum occurring elsewhere in the product (so that it can cancel)
    osums = _opaque_sums(dep)
    if osums and len(binders) > 1:
        opq = [a for a, e in dep.items() if (a.kind == 'sum' and e != 1) or (a.kind != 'sum' and _inner_sums(a))]
        bq = [b for b in binders if not any(b[0] in a.fv for a in opq)]
        if bq and len(bq) < len(binders) and not any(b[1].fv & set(names) for b in binders):
            bn_ = {b[0] for b in bq}
            fin = {a: e for a, e in dep.items() if a.fv & bn_}
            rest = {a: e for a, e in dep.items() if not a.fv & bn_}
            inner = mk_sum(bq, norm_mono(fin))
            if any(x[0] in osums for mm in inner.t for x in mm):
                keep = [b for b in binders if b[0] not in bn_]
                return mul(res, mk_sum(keep, mul(norm_mono(rest), inner)))
    # connected components
    comps = []
    for v, n in binders:
        comps.append(({v}, []))
    for a, e in dep.items():
        hit = [c for c in comps if any(x in a.fv for x in c[0])]
        if len(hit) > 1:
            base = hit[0]
            for c in hit[1:]:
                base[0].update(c[0]); base[1].extend(c[1]); comps.remove(c)
            base[1].append((a, e))
        else: hit[0][1].append((a, e))
    rng = dict(binders)
    # ranges that depend on other binders keep the components together
    for v, n in binders:
        if n.fv & set(rng):
            comps = [(set(rng), [x for c in comps for x in c[1]])]
            break
    order = [b[0] for b in binders]
    for vs, fs in comps:
        ns = [v for v in order if v in vs]
        fpoly = norm_mono(dict(fs))
        if len(fpoly.t) != 1 and not (len(fpoly.t) == 1):
            # rewriting produced several monomials: go through mk_sum again
            res = mul(res, mk_sum([(v, rng[v]) for v in ns], fpoly)); continue
        bn, rs, b = close(ns, [rng[v] for v in ns], fpoly)
        if len(b.t) != 1 or (not isconst(b) and list(b.t.values())[0] != 1):
            # renaming changed the canonical form; keep as is
            pass
        a = atom('sum', (bn, rs, b), 'r', bound=bn)
        res = mul(res, apoly(a))
    return res

_insums = {}
def _inner_sums(a):
    """sum atoms strictly inside atom a"""
    r = _insums.get(a)
    if r is None:
        out = set()
        def go(x):
            if isinstance(x, Poly):
                for m in x.t:
                    for b, e in m: goa(b)
            elif isinstance(x, Atom): goa(x)
            elif isinstance(x, tuple):
                for y in x: go(y)
        def goa(b):
            if b.kind == 'sum': out.add(b)
            out.update(_inner_sums(b))
        for x in a.args: go(x)
        r = _insums[a] = frozenset(out)
    return r
def _opaque_sums(dep):
    out = set()
    for a, e in dep.items():
        if a.kind == 'sum':
            if e != 1: out.add(a)
        else: out |= _inner_sums(a)
    return out

def linear_in(p, v):
    """p = c*v + rest with v not in rest and c free of v; returns (c, rest) or None"""
    ct = {}; rt = {}
    va = atom('var', (v,), 'i')
    for m, c in p.t.items():
        hit = None
        for a, e in m:
            if a is va:
                if e != 1: return None
                hit = True
            elif v in a.fv: return None
        if hit: ct[tuple(x for x in m if x[0] is not va)] = c
        else: rt[m] = c
    return _mkpoly(ct), _mkpoly(rt)

def in_range(t, n):
    return mul(mk_ge0(t), mk_lt(sub(t, n)))

def _eliminate(v, n, dep):
    vp = var(v)
    # 1. equality guard
    for a in dep:
        if a.kind == 'eq' and v in a.fv:
            r = _solve_eq(a.args[0], v, n)
            if r is None: continue
            guard, t = r
            rest = dict(dep); del rest[a]
            return [], mul(guard, subst(norm_mono(rest), {v: t}))
    # 2. block guard  v*B <= t  and t < (v+1)*B  (le(v*B - t), le(t - v*B - B + 1))
    les = [a for a in dep if a.kind == 'le' and v in a.fv]
    for a in les:
        for b in les:
            if a is b: continue
            la = linear_in(a.args[0], v); lb = linear_in(b.args[0], v)
            if la is None or lb is None or not la[0].t: continue
            if add(la[0], lb[0]).t: continue
            if add(sub(la[1], ZERO), lb[1]) is not None:
                B = None
                s = add(la[1], lb[1])          # = -B + 1 when guards form a block of size B
                Bc = sub(ONE, s)
                if Bc is la[0] or Bc is lb[0]:
                    B = Bc
                    up = a if la[0] is B else b     # v*B - t <= 0
                    lu = la if up is a else lb
                    t = neg(lu[1])
                    rest = dict(dep); del rest[a]; del rest[b]
                    q = mk_div(t, B)
                    guard = mul(mk_ge0(t), mk_lt(sub(t, mul(n, B))))
                    return [], mul(guard, subst(norm_mono(rest), {v: q}))
    # 3. selection from a filtered sequence
    sels = set()
    def scan(p, depth=0):
        for m in p.t:
            for a, e in m: scan_a(a)
    okk = [True]
    def scan_a(a):
        if v not in a.fv: return
        if a.kind == 'sel' and a.args[3] is vp and v not in _fvof(a.args[:3]):
            sels.add(a); return
        if a.kind == 'var': okk[0] = False; return
        for x in a.args: scan_x(x)
    def scan_x(x):
        if isinstance(x, Poly): scan(x)
        elif isinstance(x, Atom): scan_a(x)
        elif isinstance(x, tuple):
            for y in x: scan_x(y)
    for a in dep: scan_a(a)
    if okk[0] and len(sels) == 1:
        s, = sels
        if n is mk_cnt_from(s):
            bn, base, cond, idx = s.args
            w = fresh('k'); CTX.varrange[w] = base
            c = subst(cond, {bn: var(w)})
            body = replace_atom(norm_mono(dep), s, var(w))
            return [(w, base)], mul(c, body)
    # 3b. positions of an enumeration (any order): the same as going through the enumerated things
    r = enum_of(v, n, [norm_mono(dep)])
    if r is not None:
        w, base, pres, (body,) = r
        return [(w, base)], mul(pres, body)
    r = enum_pairs(v, n, [norm_mono(dep)])
    if r is not None:
        bs, pres, (body,) = r
        return bs, mul(pres, body)
    # 4. block split: n = q*B and the body uses  v div B
    divs = set()
    def scand(a):
        if v not in a.fv: return
        if a.kind == 'div' and a.args[0].t and not depends(a.args[1], [v]): divs.add(a)
        for x in a.args: scandx(x)
    def scandx(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: scand(a)
        elif isinstance(x, Atom): scand(x)
        elif isinstance(x, tuple):
            for y in x: scandx(y)
    for a in dep: scand(a)
    for dv in sorted(divs, key=lambda x: x.skey):
        B = dv.args[1]
        q = exact_quotient(n, B)
        if q is None: continue
        if v not in dv.args[0].fv: continue
        w1 = fresh('k'); w2 = fresh('k')
        CTX.varrange[w1] = q; CTX.varrange[w2] = B
        body = subst(norm_mono(dep), {v: add(mul(var(w1), B), var(w2))})
        return [(w1, q), (w2, B)], body
    return None

def _fvof(x):
    return _fvh(tuple(x))[0]

def exact_quotient(n, B):
    if len(B.t) == 1:
        (bm, bc), = B.t.items()
        t = {}
        for m, c in n.t.items():
            d = dict(m)
            if not divides(bm, d): return None
            for x, e in bm: d[x] -= e
            t[tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].skey))] = c / bc
        return _mkpoly(t)
    lm, lc = lead(B)
    q = ZERO; r = n
    for _ in range(10):
        if not r.t: return q
        hit = None
        for m, c in r.t.items():
            d = dict(m)
            if divides(lm, d):
                for x, e in lm: d[x] -= e
                hit = _mkpoly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].skey)): c / lc})
                break
        if hit is None: return None
        q = add(q, hit); r = sub(r, mul(hit, B))
    return None

def enum_of(v, n, polys):
    """v ranges over the positions of an enumeration app K(.., v) of the w with pres(.., w), and polys use v in K(.., v) only: (w, base, pres(w), polys over w)"""
    if not CTX.enums: return None
    vp = var(v); found = set(); ok = [True]
    def scan(x):
        if isinstance(x, Poly):
            if v not in x.fv: return
            for m in x.t:
                for a, e in m: scan(a)
        elif isinstance(x, Atom):
            if v not in x.fv: return
            if x.kind == 'app' and x.args[0] in CTX.enums and x.args[-1] is vp and not any(v in y.fv for y in x.args[1:-1]): found.add(x); return
            if x.kind == 'var': ok[0] = False; return
            for y in x.args: scan(y)
        elif isinstance(x, tuple):
            for y in x: scan(y)
    for p in polys: scan(p)
    if not ok[0] or len(found) != 1: return None
    a, = found
    base, f = CTX.enums[a.args[0]]
    pre = a.args[1:-1]
    if n is not mk_cnt(base, lambda w: f(*(tuple(pre) + (w,)))): return None
    w = fresh('k'); CTX.varrange[w] = base
    return w, base, f(*(tuple(pre) + (var(w),))), [replace_atom(p, a, var(w)) for p in polys]

def enum_pairs(v, n, polys):
    """v ranges over the positions of an enumeration (KJ(.., v), KU(.., v)) of the pairs (j, u) with pres(.., j, u), used in these two only: ([(j, ..), (u, ..)], pres, polys)"""
    if not CTX.enumpairs: return None
    vp = var(v); found = set(); ok = [True]
    def scan(x):
        if isinstance(x, Poly):
            if v not in x.fv: return
            for m in x.t:
                for a, e in m: scan(a)
        elif isinstance(x, Atom):
            if v not in x.fv: return
            if x.kind == 'app' and x.args[0] in CTX.enumpairs and x.args[-1] is vp and not any(v in y.fv for y in x.args[1:-1]): found.add(x); return
            if x.kind == 'var': ok[0] = False; return
            for y in x.args: scan(y)
        elif isinstance(x, tuple):
            for y in x: scan(y)
    for p in polys: scan(p)
    if not ok[0] or not found: return None
    a = min(found, key=lambda x: x.skey)
    KJ, KU, bj, bu, f = CTX.enumpairs[a.args[0]]
    pre = tuple(a.args[1:-1])
    if any(x.args[0] not in (KJ, KU) or tuple(x.args[1:-1]) != pre for x in found): return None
    if n is not Sigma(bj, lambda j: Sigma(bu, lambda u: f(*(pre + (j, u))))): return None
    j, u = fresh('k'), fresh('k'); CTX.varrange[j] = bj; CTX.varrange[u] = bu
    mp = {x: var(j) if x.args[0] == KJ else var(u) for x in found}
    return [(j, bj), (u, bu)], f(*(pre + (var(j), var(u)))), [rebuild(p, {}, mp) for p in polys]

def _solve_eq(p, v, n):
    """solve p == 0 for v in [0,n): returns (guard, term)"""
    l = linear_in(p, v)
    if l is not None and l[0].t:
        c, rest = l
        if isconst(c) and abs(cval(c)) == 1:
            t = scale(rest, -1 / cval(c))
            return in_range(t, n), t
        return None
    if CTX.injective and len(p.t) >= 1:
        for m, cc in p.t.items():
            if len(m) == 1 and m[0][0].kind == 'app' and m[0][1] == 1 and abs(cc) == 1 and m[0][0].args[0] in CTX.injective and m[0][0].args[1] is var(v):
                nn, inset, pos = CTX.injective[m[0][0].args[0]]
                rest = _mkpoly({mm: c for mm, c in p.t.items() if mm != m})
                if v in rest.fv or lift(nn) is not lift(n): continue
                t = scale(rest, -1 / cc)
                return mk_app(inset, [t], 'b'), mk_app(pos, [t], 'i')
    # p = sel(...)[v] - t : injective selection
    for m, cc in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'sel' and m[0][1] == 1 and m[0][0].args[3] is var(v) and abs(cc) == 1:
            s = m[0][0]
            rest = _mkpoly({mm: c for mm, c in p.t.items() if mm != m})
            if v in rest.fv: continue
            if n is not mk_cnt_from(s): continue
            t = scale(rest, -1 / cc)
            bn, base, cond, idx = s.args
            guard = mul(subst(cond, {bn: t}), in_range(t, base))
            return guard, mk_rank_raw(bn, base, cond, t)
    return None

# filtered sequences -------------------------------------------------------------------------------------------------
def close1(name, body):
    bn = '#%d' % (body.h + 1)
    return bn, subst(body, {name: var(bn)})

def mk_cnt(n, f):
    return Sigma(n, f)
def mk_cnt_from(s):
    bn, base, cond, idx = s.args
    v = fresh('k'); CTX.varrange[v] = base
    return mk_sum([(v, base)], subst(cond, {bn: var(v)}))
def mk_sel(n, f, i):
    """index of the i-th k<n with f(k)"""
    n = lift(n); i = lift(i)
    v = fresh('k'); CTX.varrange[v] = n
    cond = f(var(v))
    if cond is ONE: return i
    # i = rank(k) of the same condition
    bn, c = close1(v, cond)
    if len(i.t) == 1:
        (m, cc), = i.t.items()
        if cc == 1 and len(m) == 1 and m[0][0].kind == 'rank' and m[0][1] == 1:
            r = m[0][0]
            if r.args[:3] == (bn, n, c): return r.args[3]
        if cc == 1 and len(m) == 1 and m[0][0].kind == 'sel' and m[0][1] == 1:
            # selection among the selected: both conditions at once
            b2, n2, c2, i2 = m[0][0].args
            if n2 is mk_sum([(v, n)], cond):
                y = fresh('k'); CTX.varrange[y] = n2
                sy = atom('sel', (bn, n, c, var(y)), 'i', bound=(bn,))
                x = fresh('k'); CTX.varrange[x] = n
                d = rebuild(subst(c2, {b2: var(y)}), {}, lambda a: var(x) if a is sy else None)
                if y not in d.fv: return mk_sel(n, lambda k: mul(subst(c, {bn: k}), subst(d, {x: k})), i2)
    return shannon((i,), lambda a: apoly(atom('sel', (bn, n, c, a[0]), 'i', bound=(bn,))))
def mk_rank(n, f, k):
    n = lift(n)
    v = fresh('k'); CTX.varrange[v] = n
    cond = f(var(v))
    bn, c = close1(v, cond)
    return mk_rank_raw(bn, n, c, lift(k))
def mk_rank_raw(bn, n, c, k):
    if c is ONE: return k
    if len(k.t) == 1:
        (m, cc), = k.t.items()
        if cc == 1 and len(m) == 1 and m[0][0].kind == 'sel' and m[0][1] == 1:
            s = m[0][0]
            if s.args[:3] == (bn, n, c): return s.args[3]
    return apoly(atom('rank', (bn, n, c, k), 'i', bound=(bn,)))
def mk_sel_raw(bn, n, c, i):
    v = fresh('k'); CTX.varrange[v] = n
    return mk_sel(n, lambda k: subst(c, {bn: k}), i)

# generic binder reductions (max/min/opaque functionals) ------------------------------------------------------------------
def mk_red(name, binders, bodies, extra=(), sort='r'):
    """opaque functional over tuple of bodies indexed by binders [(v,n)]"""
    if name in ('max', 'min') and len(bodies) == 2 and CTX.enums:
        for i, (v, n) in enumerate(binders):
            r = enum_of(v, n, bodies) if not any(v in b[1].fv for b in binders) else None
            if r is not None:
                w, base, pres, (f, g) = r
                return mk_red(name, list(binders[:i]) + [(w, base)] + list(binders[i + 1:]), (mul(f, pres), mul(g, pres)), extra, sort)
    if name in ('max', 'min') and len(bodies) == 2 and (len(bodies[0].t) == 1):
        # the largest of largest ones: one maximum over both indices
        m, c = list(bodies[0].t.items())[0]
        inner = [a for a, e in m if a.kind == 'red' and e == 1 and a.args[0] == name]
        if c == 1 and len(inner) == 1 and bodies[0] is mul(apoly(inner[0]), bodies[1]) and any(b[0] in inner[0].fv for b in binders):
            _, bn2, r2, (f2, g2), ex2 = inner[0].args
            fr = [fresh('m') for _ in bn2]; mp2 = {b: var(f) for b, f in zip(bn2, fr)}
            for f, r in zip(fr, r2): CTX.varrange[f] = subst(r, mp2)
            if not any(b[0] in r.fv for b in binders for r in r2):
                f2, g2 = subst(f2, mp2), subst(g2, mp2)
                return mk_red(name, list(binders) + list(zip(fr, r2)), (mul(f2, bodies[1]), mul(g2, bodies[1])), tuple(extra) or ex2, sort)
    if name in ('max', 'min') and len(binders) == 2 and not any(b[0] in c[1].fv for b in binders for c in binders):
        return min((_mk_red(name, bs, bodies, extra, sort) for bs in (list(binders), list(binders)[::-1])), key=skey)
    return _mk_red(name, binders, bodies, extra, sort)
def _mk_red(name, binders, bodies, extra, sort):
    names = [b[0] for b in binders]; ranges = [b[1] for b in binders]
    h = max([b.h for b in bodies] + [r.h for r in ranges] + [0])
    bn = ['#%d' % (h + 1 + i) for i in range(len(names))]
    mp = {n: var(b) for n, b in zip(names, bn)}
    bs = tuple(subst(b, mp) for b in bodies)
    return apoly(atom('red', (name, tuple(bn), tuple(ranges), bs, tuple(extra)), sort, bound=tuple(bn)))

# ------------------------------------------------------------------------------------------------------------ substitution
def subst(p, mp, memo=None):
    if not mp: return p
    names = p.fv
    for n in mp:
        if n in names: break
    else: return p
    return rebuild(p, mp)

def rebuild(p, mp, amap=None, memo=None, force=False):
    """re-normalise p with variables mapped by mp and atoms by amap"""
    if memo is None: memo = {}
    return _rb(p, mp, amap, memo, force)

def _touch(x, mp, amap, force):
    if force: return True
    for n in mp:
        if n in x.fv: return True
    return amap is not None

def _rb(p, mp, amap, memo, force):
    if not _touch(p, mp, amap, force): return p
    r = memo.get(p)
    if r is not None: return r
    outs = []
    same = {}
    for m, c in p.t.items():
        ch = [(a, e) for a, e in m if _touch(a, mp, amap, force)]
        if not ch:
            same[m] = c; continue
        r = norm_mono({a: e for a, e in m if not _touch(a, mp, amap, force)})
        for a, e in ch:
            x = _rba(a, mp, amap, memo, force)
            r = mul(r, x if e == 1 else mk_pow(x, e))
            if not r.t: break
        outs.append(scale(r, c))
    if same: outs.append(_mkpoly(same))
    res = psum(outs)
    memo[p] = res
    return res

def _rba(a, mp, amap, memo, force):
    r = memo.get(a)
    if r is not None: return r
    r = _rba1(a, mp, amap, memo, force)
    memo[a] = r
    return r

def _rba1(a, mp, amap, memo, force):
    if amap is not None:
        if isinstance(amap, dict): x = amap.get(a)
        elif mp and a.kind != 'var' and any(n in a.fv for n in mp):
            x = None
            q = _rba1(a, mp, None, {}, force)               # the atom as it reads after renaming (bound variables are opened)
            if len(q.t) == 1:
                (mm, cc), = q.t.items()
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1: x = amap(mm[0][0])
        else: x = amap(a)
        if x is not None: return x
    k = a.kind
    R = lambda p: _rb(p, mp, amap, memo, force)
    if k == 'var':
        x = mp.get(a.args[0])
        return x if x is not None else apoly(a)
    if k == 'app': return mk_app(a.args[0], [R(x) for x in a.args[1:]], a.sort)
    if k == 'le': return mk_le(R(a.args[0]))
    if k == 'lt': return mk_lt(R(a.args[0]))
    if k == 'eq': return mk_eq(R(a.args[0]))
    if k == 'pb': return R(a.args[0])
    if k == 'relu': return mk_relu(R(a.args[0]))
    if k == 'abs': return mk_abs(R(a.args[0]))
    if k == 'fun': return mk_fun(a.args[0], *[R(x) for x in a.args[1:]])
    if k == 'div': return mk_div(R(a.args[0]), R(a.args[1]))
    if k == 'sum':
        bn, ranges, body = a.args
        names = []; mp2 = dict(mp)
        rs = [R(r) for r in ranges]
        for b, r in zip(bn, rs):
            v = fresh('k'); CTX.varrange[v] = r
            names.append(v); mp2[b] = var(v)
        body2 = _rb(body, mp2, amap, {}, force)
        if any(isconst(r) and cval(r) <= 8 for r in rs):
            res = body2; left = []
            for v, r in zip(names, rs):
                if isconst(r) and cval(r) <= 8:
                    res = psum(subst(res, {v: const(i)}) for i in range(int(cval(r))))
                else: left.append((v, r))
            return mk_sum(left, res) if left else res
        return mk_sum(list(zip(names, rs)), body2)
    if k == 'sel' or k == 'rank':
        bn, n, c, i = a.args
        n2 = R(n); i2 = R(i)
        v = fresh('k'); CTX.varrange[v] = n2
        c2 = _rb(c, dict(mp, **{bn: var(v)}), amap, {}, force)
        if k == 'sel':
            return mk_sel(n2, lambda kk: subst(c2, {v: kk}), i2)
        return mk_rank(n2, lambda kk: subst(c2, {v: kk}), i2)
    if k == 'red':
        name, bn, ranges, bodies, extra = a.args
        names = []; mp2 = dict(mp); rs = [R(r) for r in ranges]
        for b, r in zip(bn, rs):
            v = fresh('k'); CTX.varrange[v] = r
            names.append(v); mp2[b] = var(v)
        bs = [_rb(b, mp2, amap, {}, force) for b in bodies]
        ex = tuple(R(x) if isinstance(x, Poly) else x for x in extra)
        return mk_red(name, list(zip(names, rs)), bs, ex, a.sort)
    return apoly(a)

def replace_atom(p, a, t):
    return rebuild(p, {}, {a: t})

def simp(p):
    """re-normalise everything under the current context"""
    return rebuild(p, {}, None, None, True)

# --------------------------------------------------------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.varrange = {}          # name -> n : 0 <= name < n
        self.nonnegvars = set()     # real/int variables known >= 0
        self.lower = {}             # int var name -> lower bound (int)
        self.appnonneg = {'DU'}
        self.appdefs = {}
        self.enumpairs = {}         # app names KJ and KU -> (KJ, KU, range of j, range of u, pres): the i-th present pair (KJ(.., i), KU(.., i)), in some order
        self.enums = {}             # app name -> (base, pres): K(.., i) is the i-th of the w < base with pres(.., w), in some order
        self.injective = {}         # app name f -> (n, inset, pos): f(0..n-1) distinct; inset(x) says x is one of them, pos(x) which one
        self.increasing = {}        # app name -> True: strictly increasing in its single argument
        self.unit = {'DU'}          # app names with values in [0,1)
        self.apprange = {'DU': lambda *a: ONE}          # app name -> function(args) -> n : 0 <= app < n
        self.assumed = {}           # atom -> bool
        self.facts = []             # list of (poly) known to be <= 0 (ints)
        self.templates = []         # (appname, argpos, f) : f(t) -> list of (atom, bool) facts
        self.cache = {}; self.instcache = {}; self.ininst = 0
        self.z3calls = 0; self.z3time = 0.0
        self.depth = 0
        self.version = 0; self._vc = 0
    def newversion(self):
        self._vc += 1; self.version = self._vc; self.cache = {}
    def mark(self): return (dict(self.assumed), len(self.facts), len(self.templates), self.version)
    def reset(self, mk):
        self.assumed = mk[0]
        del self.facts[mk[1]:]; del self.templates[mk[2]:]
        self.cache = {}; self.version = mk[3]; _mm_cache.clear()
    def assume(self, b):
        """assume the 0/1 polynomial b is 1. Returns False if contradictory."""
        b = simp(b)
        if b is ONE: return True
        if not b.t: return False
        self.newversion(); _mm_cache.clear()
        self._assume(b)
        self.cache = {}
        return True
    def _assume(self, b):
        if len(b.t) == 1:
            (m, c), = b.t.items()
            if c == 1:
                for a, e in m: self._set(a, True)
                return
        if len(b.t) == 2 and b.t.get(()) == 1:
            (m, c), = [(m, c) for m, c in b.t.items() if m]
            if c == -1 and len(m) == 1:
                self._set(m[0][0], False); return
        # factor (1-a)*rest or a*rest
        for a in sorted(_top_inds(b, 50) or [], key=lambda x: x.skey):
            p1, p0 = cofactor(b, a)
            if not p1.t:
                self._set(a, False); self._assume(simp(p0)); return
            if not p0.t:
                self._set(a, True); self._assume(simp(p1)); return
        self.assumed[atom('eq', (sub(b, ONE),))] = True
        self.extra_bool = getattr(self, 'extra_bool', [])
    def _set(self, a, v):
        self.assumed[a] = v
        if a.kind in ('le', 'lt') and is_int(a.args[0]):
            p = a.args[0]
            self.facts.append(p if v else add(neg(p), ONE))
            self._counts(p if v else add(neg(p), ONE))
        elif a.kind == 'eq' and v:
            if is_int(a.args[0]):
                self.facts.append(a.args[0]); self.facts.append(neg(a.args[0]))
            self._allcount(a.args[0])
        elif a.kind == 'le' and v: pass
    def _counts(self, p): 
        # n <= sum [c(k)]  : all true
        self._allcount_le(p)
    def _allcount(self, p):
        self._allcount_le(p); self._allcount_le(neg(p))
    def _allcount_le(self, p):
        """p <= 0 with p = n - sum_{k<n} c(k)  => c(k) for all k<n ;  p = sum_k c(k) => c(k) false"""
        sums = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][0].kind == 'sum' and m[0][1] == 1]
        if not sums: return
        ranges = sums[0][0].args[1]
        if any(x.args[1] != ranges for x, _ in sums): return
        rest = _mkpoly({m: c for m, c in p.t.items() if not (len(m) == 1 and m[0][0].kind == 'sum')})
        if any(a.kind == 'sum' for m in rest.t for a, _ in m): return
        n = prod(ranges)
        if not rest.t: val = False
        elif sub(rest, n).t == {}: val = True
        else: return
        bn = sums[0][0].args[0]
        for x, _ in sums:
            if len(x.args[0]) == len(bn) and x.args[0] > bn: bn = x.args[0]
        body = psum(scale(subst(x.args[2], {o: var(b) for o, b in zip(x.args[0], bn)}) if x.args[0] != bn else x.args[2], -c if val else c) for x, c in sums)
        if not all(a.idem for m in body.t for a, _ in m) or mul(body, body) is not body: return
        x0, c0 = sums[0]
        repl = scale(sub(p, scale(apoly(x0), c0)), Fr(-1) / c0)
        self.templates.append(('allsum', bn, ranges, body, val, x0, repl))
    def forall(self, app, argpos, f):
        """f(t): list of (0/1 poly) facts that hold for every t at argument position argpos of app"""
        self.templates.append(('inst', app, argpos, f))
        self.newversion()
    def forall_range(self, n, f):
        """f(t): facts that hold for every index t below n (used for the free index variables of that range)"""
        self.templates.append(('rng', lift(n), f))
        self.newversion()
    # -- decisions
    def decide_b(self, at):
        d = self.assumed.get(at)
        if d is not None: return d
        d = _sel_facts(at)
        if d is not None: return d
        return self._tmpl_bool(at)
    def _tmpl_bool(self, at):
        for t in self.templates:
            if t[0] == 'allsum':
                bn, ranges, body, val = t[1:5]
                r = _match_in_product(body, at, bn, ranges, val)
                if r is not None: return r
        return None
    def decide(self, kind, p):
        at = atom(kind, (p,))
        d = self.assumed.get(at)
        if d is not None: return d
        key = (kind, p)
        if key in self.cache: return self.cache[key]
        if self.depth > 3: return None
        self.depth += 1
        try: d = self._decide(kind, p, at)
        finally: self.depth -= 1
        if d is not None or self.depth <= 1 and not self.ininst: self.cache[key] = d
        return d
    def _decide(self, kind, p, at):
        # lt/le/eq relations with assumed atoms over the same polynomial
        for k2 in ('le', 'lt', 'eq'):
            if k2 == kind: continue
            d = self.assumed.get(atom(k2, (p,)))
            if d is None: continue
            if kind == 'le' and d and k2 in ('lt', 'eq'): return True
            if kind == 'lt':
                if k2 == 'le' and not d: return False
                if k2 == 'eq' and d: return False
            if kind == 'eq':
                if k2 == 'lt' and d: return False
                if k2 == 'le' and not d: return False
        r = _sel_facts(at)
        if r is not None: return r
        r = self._tmpl_bool(at)
        if r is not None: return r
        r = self._instances(kind, p) if not self.ininst else None
        if r is not None: return r
        if nonneg(p):
            c = cval(p)
            if c > 0: return False
            if kind == 'lt': return False
        q = neg(p)
        if nonneg(q):
            if kind == 'le': return True
            if cval(q) > 0: return True if kind == 'lt' else False
        if is_int(p) and indexlike(p): return self.z3_decide(kind, p)
        return None
    def _instances(self, kind, p):
        for t in self.templates:
            cands = set()
            if t[0] == 'inst':
                _, app, pos, f = t
                _collect_args(p, app, pos, cands)
            elif t[0] == 'rng':
                f = t[2]
                cands = {var(v) for v in p.fv if not v.startswith('#') and self.varrange.get(v) is t[1]}
            else: continue
            for cnd in cands:
                if any(x.startswith('#') for x in cnd.fv): continue
                for fact in self.inst(f, cnd):
                    r = _fact_decides(fact, kind, p)
                    if r is not None: return r
        return None
    def inst(self, f, cnd):
        key = (f, cnd)
        facts = self.instcache.get(key)
        if facts is None:
            self.ininst += 1
            try: facts = self.instcache[key] = f(cnd)
            finally: self.ininst -= 1
        return facts
    def decide_le(self, p):
        """True if p<=0 is known"""
        p = lift(p)
        if isconst(p): return cval(p) <= 0
        r = mk_le(p)
        return r is ONE
    def z3_decide(self, kind, p):
        from . import smt
        return smt.decide(self, kind, p)
CTX = Ctx()

def _collect_sels(x, out, seen):
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m: _collect_sels(a, out, seen)
    elif isinstance(x, Atom):
        if x in seen: return
        seen.add(x)
        if x.kind == 'sel' : out.append(x)
        for y in x.args: _collect_sels(y, out, seen)
    elif isinstance(x, tuple):
        for y in x: _collect_sels(y, out, seen)
def _rawatom(a, v, q):
    if a.kind not in ('div', 'app', 'eq', 'le', 'lt'): return None
    g = []
    for y in a.args:
        if isinstance(y, Poly): y = _rawsub(y, v, q)
        elif not isinstance(y, str): return None
        if y is None: return None
        g.append(y)
    return atom(a.kind, tuple(g), a.sort)
def _rawsub(p, v, q):
    """replace the variable v inside sums, products and divisions (no simplification); None for anything else"""
    out = ZERO
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            if a.kind == 'var' and a.args[0] == v: x = q
            elif v not in a.fv: x = apoly(a)
            else:
                x = _rawatom(a, v, q)
                if x is None: return None
                x = apoly(x)
            if e != 1:
                if e != int(e) or e < 0: return None
                x = prod([x] * int(e))
            t = mul(t, x)
        out = add(out, t)
    return out
def _sel_facts(at):
    """c(sel_c(i)) is true"""
    sels = []
    _collect_sels(at, sels, set())
    for s_ in sels:
        bn, n, c, i = s_.args
        inds = _top_inds(c, 20)
        if not inds: continue
        sp = apoly(s_)
        for f in inds:
            if bn not in f.fv: continue
            b = unify(f, at, {bn: None})
            if b is None and f.kind == at.kind and _rawatom(f, bn, sp) is at: b = {bn: sp}
            if b is not None and b[bn] is sp:
                p1, p0 = cofactor(c, f)
                if not p0.t: return True
                if not p1.t: return False
    return None

def _fact_decides(fact, kind, p):
    """fact: ('le'|'lt'|'eq'|'ge1', poly)  """
    fk, fp = fact
    if fk == 'ge1':       # fp >= 1 , p = c*fp + rest_const
        r = None
        for sgn in (1, -1):
            d = sub(p, scale(fp, sgn))
            if isconst(d):
                c = cval(d)
                if sgn == 1:    # p = fp + c >= 1 + c
                    if 1 + c > 0: return False           # le/lt/eq false
                    if 1 + c == 0 and kind == 'lt': return False
                else:           # p = c - fp <= c - 1
                    if c - 1 < 0: return {'le': True, 'lt': True, 'eq': False}[kind]
                    if c - 1 == 0 and kind == 'le': return True
    return None

def _collect_args(p, app, pos, out, seen=None):
    if seen is None: seen = set()
    for m in p.t:
        for a, e in m: _collect_args_a(a, app, pos, out, seen)
def _collect_args_a(a, app, pos, out, seen):
    if a in seen: return
    seen.add(a)
    if a.kind == 'app' and a.args[0] == app: out.add(a.args[1 + pos])
    for x in a.args: _cax(x, app, pos, out, seen)
def _cax(x, app, pos, out, seen):
    if isinstance(x, Poly): _collect_args(x, app, pos, out, seen)
    elif isinstance(x, Atom): _collect_args_a(x, app, pos, out, seen)
    elif isinstance(x, tuple):
        for y in x: _cax(y, app, pos, out, seen)

def boolean(p):
    """p syntactically a product of 0/1 atoms (one monomial, coefficient 1)"""
    if len(p.t) != 1: return False
    (m, c), = p.t.items()
    return c == 1 and all(a.idem for a, e in m)

def _match_in_product(body, at, bn, ranges, val):
    """all-true: every factor of body is true for all index values; all-false only usable when body is a single atom"""
    if len(body.t) != 1: return None
    (m, c), = body.t.items()
    if val is False and len(m) != 1: return None
    for a, e in m:
        b = unify(a, at, {n: None for n in bn})
        if b is not None:
            ok = True
            for n, r in zip(bn, ranges):
                t = b.get(n)
                if t is None: ok = False; break
                if not (CTX.decide_le(neg(t)) and CTX.decide_le(add(sub(t, r), ONE))): ok = False; break
            if ok: return val
    return None

def unify(a, b, bind):
    """match atom a (with pattern variables = keys of bind) against atom b. returns binding or None"""
    if a is b and not (a.fv & set(bind)): return bind
    if a.kind != b.kind or a.sort != b.sort or len(a.args) != len(b.args): return None
    skip = -1; added = ()
    if a.kind in ('sum', 'sel', 'rank', 'red'):
        skip = 1 if a.kind == 'red' else 0
        na, nb = a.args[skip], b.args[skip]
        if isinstance(na, str): na, nb = (na,), (nb,)
        if len(na) != len(nb): return None
        if na != nb:
            if any(n in bind for n in na): return None
            bind = dict(bind); added = na
            for p, q in zip(na, nb): bind[p] = var(q)
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if i == skip: continue
        bind = unify_x(x, y, bind)
        if bind is None: return None
    if added: bind = {k: v for k, v in bind.items() if k not in added}
    return bind
def unify_x(x, y, bind):
    if isinstance(x, Poly):
        if not isinstance(y, Poly): return None
        if x is y and not (x.fv & set(bind)): return bind
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and m[0][0].args[0] in bind:
                n = m[0][0].args[0]
                if bind[n] is None:
                    b = dict(bind); b[n] = y; return b
                return bind if bind[n] is y else None
        if len(x.t) != len(y.t): return None
        # match monomials: only handle when constant parts equal; try in sorted order by structure ignoring keys
        xs = sorted(x.t.items(), key=lambda z: (len(z[0]), str(z[1]), tuple(q[0].kind for q in z[0])))
        ys = sorted(y.t.items(), key=lambda z: (len(z[0]), str(z[1]), tuple(q[0].kind for q in z[0])))
        for (m1, c1), (m2, c2) in zip(xs, ys):
            if c1 != c2 or len(m1) != len(m2): return None
            r1 = sorted(m1, key=lambda q: (q[0].kind, str(q[1]), str(q[0].args[0]) if q[0].kind in ('app', 'fun') else ''))
            r2 = sorted(m2, key=lambda q: (q[0].kind, str(q[1]), str(q[0].args[0]) if q[0].kind in ('app', 'fun') else ''))
            for (a1, e1), (a2, e2) in zip(r1, r2):
                if e1 != e2: return None
                bind = unify(a1, a2, bind)
                if bind is None: return None
        return bind
    if isinstance(x, Atom):
        return unify(x, y, bind) if isinstance(y, Atom) else None
    if isinstance(x, tuple):
        if not isinstance(y, tuple) or len(x) != len(y): return None
        for p, q in zip(x, y):
            bind = unify_x(p, q, bind)
            if bind is None: return None
        return bind
    return bind if x == y else None

def indexlike(p):
    n = 0
    for m in p.t:
        for a, e in m:
            n += 1
            if a.kind not in ('var', 'div', 'sel', 'rank', 'app', 'sum', 'red') and not a.idem: return False
    return n <= 14

# --------------------------------------------------------------------------------------------------------------- printing
def pp(p, depth=0):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: mono_key(x[0])):
        s = '*'.join(pp_atom(a) + ('' if e == 1 else '^(%s)' % e) for a, e in m)
        if not m: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out)
def pp_atom(a):
    k = a.kind
    if k == 'var': return a.args[0]
    if k == 'app': return '%s(%s)' % (a.args[0], ','.join(pp(x) for x in a.args[1:]))
    if k == 'le': return '[%s<=0]' % pp(a.args[0])
    if k == 'lt': return '[%s<0]' % pp(a.args[0])
    if k == 'eq': return '[%s==0]' % pp(a.args[0])
    if k == 'pb': return '{%s}' % pp(a.args[0])
    if k == 'num': return str(a.args[0])
    if k == 'pi': return 'pi'
    if k == 'fun': return '%s(%s)' % (a.args[0], ','.join(pp(x) for x in a.args[1:]))
    if k in ('relu', 'abs'): return '%s(%s)' % (k, pp(a.args[0]))
    if k == 'div': return '(%s div %s)' % (pp(a.args[0]), pp(a.args[1]))
    if k == 'sum': return 'SUM{%s}(%s)' % (','.join('%s<%s' % (b, pp(r)) for b, r in zip(a.args[0], a.args[1])), pp(a.args[2]))
    if k in ('sel', 'rank'): return '%s{%s<%s|%s}(%s)' % (k, a.args[0], pp(a.args[1]), pp(a.args[2]), pp(a.args[3]))
    if k == 'red': return '%s{%s}(%s;%s)' % (a.args[0], ','.join('%s<%s' % (b, pp(r)) for b, r in zip(a.args[1], a.args[2])),
                                       ' , '.join(pp(x) for x in a.args[3]), a.args[4])
    return '%s%r' % (k, a.args)

def size(p, seen=None):
    if seen is None: seen = set()
    n = 0
    for m in p.t:
        n += 1
        for a, e in m:
            if a in seen: continue
            seen.add(a)
            for x in a.args:
                n += _size_x(x, seen)
    return n
def _size_x(x, seen):
    if isinstance(x, Poly): return size(x, seen)
    if isinstance(x, tuple): return sum(_size_x(y, seen) for y in x)
    return 0

# -------------------------------------------------------------------------------------------------------- numeric evaluation
class EvalError(Exception): pass
class Env:
    """vars: name->number; apps: name->callable; reds: name->callable(values per body as nested list, extra)"""
    def __init__(self, vars, apps, reds=None, funs=None):
        self.vars = dict(vars); self.apps = apps; self.reds = reds or {}; self.funs = funs or {}
        self.memo = {}
        self.exact = False
        self.undef = False             # a division by zero was met
        self.margin = float('inf')     # smallest |difference| met in a comparison of non-integers
        self.near = float('inf')       # the same, leaving out exact (rational) ties
def _cmpval(p, env):
    v = evalp(p, env)
    if v != v: return v
    if env.exact and isinstance(v, Fr):
        if v.denominator != 1 or (v == 0 and not is_int(p)):
            env.margin = min(env.margin, abs(float(v)))
            if v != 0: env.near = min(env.near, abs(float(v)))
        return v
    if isinstance(v, float) and not v.is_integer(): env.margin = min(env.margin, abs(v)); env.near = min(env.near, abs(v))
    elif isinstance(v, float) and v == 0.0 : env.margin = env.near = 0.0
    return v
def evalp(p, env):
    s = 0
    for m, c in p.t.items():
        # zero indicators first (guards protect undefined sub-terms)
        v = None
        for a, e in m:
            if a.idem:
                if evala(a, env) == 0: v = 0; break
        if v == 0: continue
        v = c if env.exact else c.numerator if c.denominator == 1 else c.numerator / c.denominator
        for a, e in m:
            if a.idem: continue
            x = evala(a, env)
            if e == 1: v = v * x
            else:
                if e < 0 and -1e-12 < x < 1e-12: env.undef = True; v = math.nan; continue
                if x == 0: v = v * 0; continue
                if not isinstance(e, int):
                    if x < 0:
                        if x > -1e-9:
                            if e < 0: env.undef = True
                            v = v * (math.nan if e < 0 else 0); continue
                        raise EvalError('negative base %r' % x)
                    v = float(v) * float(x) ** float(e)
                elif e < 0: v = v / (x ** (-e))
                else: v = v * x ** e
        s = s + v
    return s
_FUN = {'log': lambda x: math.log(x), 'exp': lambda x: math.exp(x), 'cosh': lambda x: math.cosh(x), 'sinh': math.sinh, 'tanh': math.tanh,
        'Phi': lambda x: 0.5 * math.erfc(-x / math.sqrt(2)), 'sin': math.sin, 'cos': math.cos}
def evala(a, env):
    key = (a, tuple((n, env.vars.get(n)) for n in a.fv)) if a.kind not in ('var',) else None
    if key is not None:
        r = env.memo.get(key)
        if r is not None: return r
    r = _evala(a, env)
    if key is not None: env.memo[key] = r
    return r
def _evala(a, env):
    k = a.kind
    if k == 'var':
        v = env.vars.get(a.args[0])
        if v is None: raise EvalError('unbound ' + a.args[0])
        return v
    if k == 'app':
        f = env.apps.get(a.args[0])
        if f is None: raise EvalError('no interpretation of ' + a.args[0])
        if env.exact:
            r = f(*[evalp(x, env) for x in a.args[1:]])
            return Fr(r) if isinstance(r, float) and math.isfinite(r) else r
        return f(*[evalp(x, env) for x in a.args[1:]])
    if k == 'le': return 1 if _cmpval(a.args[0], env) <= 1e-12 else 0
    if k == 'lt': return 1 if _cmpval(a.args[0], env) < -1e-12 else 0
    if k == 'eq': return 1 if abs(_cmpval(a.args[0], env)) <= 1e-12 else 0
    if k == 'pb': return evalp(a.args[0], env)
    if k == 'num': return a.args[0]
    if k == 'pi': return math.pi
    if k == 'relu':
        v = evalp(a.args[0], env)
        return v if v != v else max(0, v)
    if k == 'abs': return abs(evalp(a.args[0], env))
    if k == 'fun':
        f = env.funs.get(a.args[0]) or _FUN.get(a.args[0])
        if f is None: raise EvalError('fun ' + a.args[0])
        try: return f(*[float(y) if isinstance(y, Fr) else y for y in (evalp(x, env) for x in a.args[1:])])
        except (ValueError, OverflowError, ZeroDivisionError) as e: raise EvalError(str(e))
    if k == 'div':
        d = evalp(a.args[1], env)
        if d == 0: return 0
        return math.floor(Fr(evalp(a.args[0], env)) / Fr(d)) if False else int(evalp(a.args[0], env) // d)
    if k == 'sum':
        bn, ranges, body = a.args
        return _loop(bn, ranges, env, lambda: evalp(body, env))
    if k == 'sel':
        bn, n, c, i = a.args
        want = int(evalp(i, env)); cnt = 0
        N = int(evalp(n, env))
        old = env.vars.get(bn)
        try:
            for kk in range(N):
                env.vars[bn] = kk
                if evalp(c, env):
                    if cnt == want: return kk
                    cnt += 1
        finally:
            if old is None: env.vars.pop(bn, None)
            else: env.vars[bn] = old
        raise EvalError('selection out of range')
    if k == 'rank':
        bn, n, c, i = a.args
        kx = int(evalp(i, env)); cnt = 0
        old = env.vars.get(bn)
        try:
            for kk in range(kx):
                env.vars[bn] = kk
                if evalp(c, env): cnt += 1
        finally:
            if old is None: env.vars.pop(bn, None)
            else: env.vars[bn] = old
        return cnt
    if k == 'red':
        name, bn, ranges, bodies, extra = a.args
        f = env.reds.get(name) or REDS.get(name)
        if f is None: raise EvalError('red ' + name)
        rows = []
        def rec(i):
            if i == len(bn): rows.append(tuple(float(y) if isinstance(y, Fr) else y for y in (evalp(b, env) for b in bodies))); return
            N = int(evalp(ranges[i], env)); old = env.vars.get(bn[i])
            for kk in range(N):
                env.vars[bn[i]] = kk; rec(i + 1)
            if old is None: env.vars.pop(bn[i], None)
            else: env.vars[bn[i]] = old
        rec(0)
        return f(rows, [evalp(x, env) if isinstance(x, Poly) else x for x in extra], [int(evalp(r, env)) for r in ranges])
    raise EvalError('kind ' + k)
def _loop(bn, ranges, env, f):
    s = 0
    def rec(i):
        nonlocal s
        if i == len(bn):
            s = s + f(); return
        N = int(evalp(ranges[i], env)); old = env.vars.get(bn[i])
        for kk in range(N):
            env.vars[bn[i]] = kk; rec(i + 1)
        if old is None: env.vars.pop(bn[i], None)
        else: env.vars[bn[i]] = old
    rec(0)
    return s
# reductions: rows of (value, guard) -> guarded max / min
def _gmax(rows, extra, ns):
    v = [r[0] for r in rows if len(r) < 2 or r[1]]
    if not v:
        if extra == ('lo',): return float('-inf')         # a running maximum that met no candidate: below everything it is compared with
        raise EvalError('empty max')
    return max(v)
def _gmin(rows, extra, ns):
    v = [r[0] for r in rows if len(r) < 2 or r[1]]
    if not v:
        if extra == ('lo',): return float('inf')
        raise EvalError('empty min')
    return min(v)
REDS = {'max': _gmax, 'min': _gmin}

# ------------------------------------------------------------------------------------------------------------- zero test
def is_zero(p, depth=0):
    """decides p == 0 (sound, incomplete)"""
    if not p.t: return True
    if depth == 0:
        p = simp(p)
        if not p.t: return True
    if isconst(p): return False
    # 0. an equation x = t among the conditions: where it holds, x may be replaced by t
    if depth < 3:
        for a in sorted({a for m in p.t for a, e in m if a.kind == 'eq'}, key=lambda x: x.skey):
            for m, c in a.args[0].t.items():
                if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'var' or abs(c) != 1: continue
                x = m[0][0].args[0]; t = scale(sub(a.args[0], scale(var(x, m[0][0].sort), c)), -1 / c)
                if x in t.fv or x.startswith('#'): continue
                c1, c0 = cofactor(p, a)
                q = sub(c1, c0)                              # p = c0 + a * q
                if x not in q.fv: continue
                q2 = subst(q, {x: t})
                p2 = add(c0, mul(apoly(a), q2))
                if p2 is not p and len(p2.t) < len(p.t): return is_zero(p2, depth + 1)
    # 1. clear denominators
    for _ in range(4):
        den = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and not a.idem: den[a] = max(den.get(a, 0), -e)
        if not den: break
        try:
            for a, e in den.items():
                ie = math.ceil(e)
                if a.kind == 'pb':
                    # multiply monomial-wise to avoid reducing by the leading monomial again
                    out = []
                    for m, c in p.t.items():
                        d = dict(m); x = d.pop(a, 0) + ie
                        base = _mkpoly({tuple(sorted(d.items(), key=lambda z: z[0].skey)): c})
                        ip = int(math.floor(x)); fr = x - ip
                        t = mul(base, ipow(a.args[0], ip)) if ip >= 0 else None
                        if t is None: return False
                        if fr: t = mul(t, _mkpoly({((a, fr),): Fr(1)}))
                        out.append(t)
                    p = psum(out)
                else:
                    p = mul(p, norm_mono({a: ie}))
        except Unsupported:
            return False
        if not p.t: return True
    if not p.t: return True
    # 2. merge sums with the same ranges
    groups = {}
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == 'sum' and e == 1]
        if len(sums) != 1: return False
        s_ = sums[0][0]
        rest = tuple(x for x in m if x[0] is not s_)
        groups.setdefault((rest, s_.args[1]), []).append((s_, c))
    if depth > 3: return False
    def zero(rs, l):
        names = []
        for r in rs:
            v = fresh('k'); CTX.varrange[v] = r; names.append(v)
        body = psum(scale(mul(_mkpoly({rest: Fr(1)}), subst(s_.args[2], {b: var(n) for b, n in zip(s_.args[0], names)})), c) for rest, s_, c in l)
        return is_zero(body, depth + 1)
    left = {}
    for (rest, rs), l in groups.items():
        if not zero(rs, [(ONE_MONO, s_, c) for s_, c in l]): left.setdefault(rs, []).extend((rest, s_, c) for s_, c in l)
    # factors taken into the sums
    return all(zero(rs, l) for rs, l in left.items())
ONE_MONO = ()
