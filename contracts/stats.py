"""C26: weighted means, densities, histogram."""
from .common import *
import copy
from sureal.tools import stats as st, misc
SM, MM = 'sureal.tools.stats.', 'sureal.tools.misc.'
vA, vB = var('A'), var('B')
def XA(i, j): return mk_app('XA', [i, j])
def HA(i, j): return mk_app('HA', [i, j], 'b')
def W(i): return mk_app('W', [i])
class WMean(Contract):
    name = 'weighed_nanmean_2d'
    functions = (MM + 'weighed_nanmean_2d',)
    cases = ({'axis': 0}, {'axis': 1})
    def setup(self, it, case):
        dims('A', 'B')
        return {'a': it.new_arr((vA, vB), lambda ix: (XA(*ix), bool_not(HA(*ix))), owner='argument'), 'w': it.new_arr((vA if case['axis'] == 0 else vB,), lambda ix: (W(*ix), ZERO), owner='argument')}
    def run(self, it, I, case): return it.call(misc.weighed_nanmean_2d, [I['a'], I['w'], case['axis']] )
    def spec(self, I, case):
        if case['axis'] == 0: return Arr((vB,), lambda j: Sigma(vA, lambda i: HA(i, j) * W(i) * XA(i, j)) * mk_pow(Sigma(vA, lambda i: HA(i, j) * W(i)), -1))
        return Arr((vA,), lambda i: Sigma(vB, lambda j: HA(i, j) * W(j) * XA(i, j)) * mk_pow(Sigma(vB, lambda j: HA(i, j) * W(j)), -1))
    def gen(self, rng, case, hints):
        a_, b_ = rng.randint(1, 5), rng.randint(1, 5)
        a = np.array([[float('nan') if rng.random() < .25 else rng.uniform(-5, 5) for _ in range(b_)] for _ in range(a_)])
        w = np.array([rng.choice([rng.uniform(.1, 3), rng.uniform(.1, 3), 0.0]) for _ in range(a_ if case['axis'] == 0 else b_)])
        if rng.random() < .3: w = np.array([float(rng.randint(1, 4)) for _ in w])
        return T.Env({'A': a_, 'B': b_}, dict(env_array('XA', 'HA', a), W=lambda i: float(w[int(i)]))), [a, w]
    def real(self, nat, case): return misc.weighed_nanmean_2d(nat[0], nat[1], case['axis'])

# ------------------------------------------------------------------------------------------------ densities
def arg(nm, i): return mk_app(nm, [i])
def xmiss(i): return mk_app('xmiss', [i], 'b')          # the value at which the density is taken may be missing
class Dens(Contract):
    """element-wise densities; arguments of equal length, or scalars that broadcast"""
    rtol = 1e-9
    def __init__(self, fn, formula, args):
        self.fn = fn; self.name = fn; self.formula = formula; self.args = args; self.functions = (SM + fn,)
        self.cases = ({'scalar': ()}, {'scalar': (args[0],)}, {'scalar': tuple(args[1:])})
        if fn == 'vectorized_convolution_of_two_uniforms': self.functions += (SM + 'convolution_of_two_uniforms',)
    def f(self): return getattr(st, self.fn)
    def setup(self, it, case):
        dims('A')
        for a in self.args:
            if a.startswith('s'): CTX.appnonneg.add(a)
        if self.fn == 'vectorized_convolution_of_two_uniforms':      # the scalar function is used through its own contract
            it.contracts[st.convolution_of_two_uniforms] = lambda it_, args, kw: snum(trapezoid(*[it_.num(x).val for x in args]), it_.num(args[0]).nan) if len(args) == 5 and not kw else it_.call_function(st.convolution_of_two_uniforms, args, kw)
        m = lambda a, i: xmiss(i) if a == 'x' else ZERO
        return {a: snum(arg(a, ZERO), m(a, ZERO)) if a in case['scalar'] else it.new_arr((vA,), lambda ix, a=a: (arg(a, *ix), m(a, *ix)), owner='argument') for a in self.args}
    def run(self, it, I, case): return it.call(self.f(), [I[a] for a in self.args])
    def spec(self, I, case): return Arr((vA,), lambda i: (self.formula(*[arg(a, ZERO if a in case['scalar'] else i) for a in self.args]), xmiss(ZERO if 'x' in case['scalar'] else i)))
    def gen(self, rng, case, hints):
        n = rng.randint(1, 5)
        v = {}
        for a in self.args:
            g = (lambda: rng.uniform(.2, 3)) if a.startswith('s') else (lambda: rng.uniform(-3, 3))
            v[a] = g() if a in case['scalar'] else np.array([g() for _ in range(n)])
        env = T.Env({'A': n}, {a: (lambda i, a=a, w=copy.copy(v[a]): float(w) if a in case['scalar'] else float(w[int(i)])) for a in self.args})
        miss = [rng.random() < .2 for _ in range(n)]
        if 'x' in case['scalar']: v['x'] = float('nan') if miss[0] else v['x']
        else: v['x'][miss] = float('nan')
        env.apps['xmiss'] = lambda i: float(miss[int(i)])
        return env, [v[a] for a in self.args]
    def real(self, nat, case): return self.f()(*nat)
def gauss(x, m, s): return mk_exp(-(x - m) ** 2 * mk_pow(2 * s ** 2, -1)) * mk_pow(2 * T.mk_pi(), T.Fr(-1, 2)) * mk_pow(s, -1)
def logis(x, m, s):
    z = (x - m) * mk_pow(s, -1)
    return mk_pow(4 * s, -1) * mk_pow(T.mk_fun('cosh', z * const(T.Fr(1, 2))), -2)
def trapezoid(x, m1, s1, m2, s2):
    """density at x of U(m1-s1/2, m1+s1/2) + U(m2-s2/2, m2+s2/2)"""
    z = x - m1 - m2; s = (s1 + s2) * const(T.Fr(1, 2)); d = T.mk_abs(s1 - s2) * const(T.Fr(1, 2))
    top = mk_pow(ite(mk_le(s2 - s1), s1, s2), -1)
    sl = mk_pow(s1 * s2, -1)
    return ite(mk_lt(z + s), ZERO, ite(mk_lt(z + d), (z + s) * sl, ite(mk_lt(z - d), top, ite(mk_lt(z - s), (s - z) * sl, ZERO))))
class Uni(Contract):
    name = 'convolution_of_two_uniforms'
    functions = (SM + name,)
    cases = ({'wide': 1}, {'wide': 2})
    rtol = 1e-9
    A5 = ('x', 'l1', 's1', 'l2', 's2')
    def syms(self, case):
        g = {a: mk_app('u_' + a, [ZERO]) for a in self.A5}
        w = case['wide']; o = 3 - w
        g['s%d' % w] = g['s%d' % o] + mk_app('u_D', [ZERO])
        return [g[a] for a in self.A5]
    def setup(self, it, case):
        CTX.appnonneg.add('u_D'); CTX.appnonneg.add('u_s1'); CTX.appnonneg.add('u_s2')
        a = [snum(x) for x in self.syms(case)]; a[0] = snum(a[0].val, xmiss(ZERO))
        return {'a': a}
    def run(self, it, I, case): return it.call(st.convolution_of_two_uniforms, I['a'])
    def spec(self, I, case): return Num(trapezoid(*self.syms(case)), xmiss(ZERO))
    def gen(self, rng, case, hints):
        s = rng.uniform(.2, 3); D = rng.choice([0, rng.uniform(0, 2)])
        v = {'l1': rng.uniform(-2, 2), 'l2': rng.choice([0.0, rng.uniform(-2, 2)]), 's1': s, 's2': s}
        v['s%d' % case['wide']] = s + D
        v['x'] = v['l1'] + v['l2'] + rng.uniform(-.6, .6) * (v['s1'] + v['s2'])
        if rng.random() < .4:            # exactly at the corners of the density (dyadic numbers: no rounding)
            s = rng.choice([.5, 1.0, 2.0]); D = rng.choice([0.0, .5, 1.0]); v = {'l1': rng.choice([0.0, 1.0, -.5]), 'l2': rng.choice([0.0, 2.0]), 's1': s, 's2': s}
            v['s%d' % case['wide']] = s + D
            v['x'] = v['l1'] + v['l2'] + rng.choice([-1, 1]) * rng.choice([D / 2, s + D / 2, 0.0])
        env = T.Env({}, {'u_' + a: (lambda i, a=a: v[a]) for a in self.A5}); env.apps['u_D'] = lambda i: D
        m = rng.random() < .15; env.apps['xmiss'] = lambda i: float(m)
        w = dict(v, x=float('nan') if m else v['x'])
        return env, [w[a] for a in self.A5]
    def real(self, nat, case): return st.convolution_of_two_uniforms(*nat)
class Histc(Contract):
    name = 'histc'; bounded = True
    functions = (SM + 'histc',)
    nquick = 60
    def setup(self, it, case): return {}
    def spec(self, I, case): return Fn(None, lambda real, env, rep, name: rep.ok(name) if real == env.expect else rep.bad(name, real, env.expect))
    def gen(self, rng, case, hints):
        s = [rng.choice([1.0, 2.0, 2.5, 3.0, -1.0, 0.0, float('nan')]) for _ in range(rng.randint(0, 12))]
        env = T.Env({}, {}); env.expect = {x: s.count(x) for x in s if x == x}
        return env, [s if rng.random() < .5 else np.array(s)]
    def real(self, nat, case): return st.histc(nat[0])
def expect(real, env, rep, name):
    """compare a nest of arrays with env.expect within env.tol"""
    def cmp(r, w, nm):
        if isinstance(w, tuple):
            if not isinstance(r, (tuple, list)) or len(r) != len(w): return rep.bad(nm, r, w)
            for k, (x, y) in enumerate(zip(r, w)): cmp(x, y, '%s[%d]' % (nm, k))
            return
        r, w = np.asarray(r, dtype=float), np.asarray(w, dtype=float)
        if r.shape != w.shape or not np.allclose(r, w, rtol=env.tol, atol=env.tol * 1e-3, equal_nan=True): rep.bad(nm, r, w)
        else: rep.ok(nm)
    cmp(real, env.expect, name)
class LogisticConv(Contract):
    """sum of two logistic variables: computed on a grid, compared with adaptive quadrature"""
    name = 'vectorized_convolution_of_two_logistics'; bounded = True
    functions = (SM + name, SM + 'ConvolveTwoPdf.pdf', SM + 'ConvolveTwoPdf._get_model', SM + 'ConvolveTwoPdf._pdf', SM + 'sech')
    nquick = 4
    def setup(self, it, case): return {}
    def spec(self, I, case): return Fn(None, expect)
    def gen(self, rng, case, hints):
        from .mle import logistic_conv
        sh = rng.choice([(3,), (2, 2), (1,), (2, 3, 1)])
        a = [np.array([rng.uniform(*b) for _ in range(int(np.prod(sh)))]).reshape(sh) for b in ((-1.5, 1.5), (-1, 1), (.2, .6), (-1, 1), (.2, .6))]
        env = T.Env({}, {}); env.tol = 1e-2
        env.expect = np.vectorize(logistic_conv)(*a)
        return env, a
    def real(self, nat, case): return st.vectorized_convolution_of_two_logistics(*nat)
class Hist(Contract):
    name = 'get_pdf, get_cdf'; bounded = True
    functions = (SM + 'get_pdf', SM + 'get_cdf')
    cases = ({'f': 'get_pdf'}, {'f': 'get_cdf'})
    def setup(self, it, case): return {}
    def spec(self, I, case): return Fn(None, expect)
    def gen(self, rng, case, hints):
        x = [rng.gauss(3, 1) for _ in range(rng.randint(2, 40))]; bins = rng.choice([None, rng.randint(1, 12)])
        n = bins or (20 if case['f'] == 'get_pdf' else 100)
        lo, hi = min(x), max(x); w = (hi - lo) / n
        edges = [lo + w * k for k in range(n + 1)]
        if any(abs(v - e) < 1e-9 for v in x for e in edges[1:-1]): return None
        c = [sum(1 for v in x if edges[k] <= v and (v < edges[k + 1] or k == n - 1)) for k in range(n)]
        env = T.Env({}, {}); env.tol = 1e-7
        dens = rng.choice([None, True, False]) if case['f'] == 'get_pdf' else None
        if case['f'] == 'get_pdf': env.expect = ([v / (len(x) * w) for v in c] if dens is not False else c, [(a + b) / 2 for a, b in zip(edges, edges[1:])])
        else: env.expect = ([sum(c[:k + 1]) / len(x) for k in range(n)], edges[1:])
        return env, [x, bins, dens]
    def real(self, nat, case):
        kw = {} if nat[1] is None else {'bins': nat[1]}
        if nat[2] is not None: kw['density'] = nat[2]
        return getattr(st, case['f'])(nat[0], **kw)
CONTRACTS = {'C26': [WMean(), Dens('vectorized_gaussian', gauss, ('x', 'm', 's')), Dens('vectorized_logistic', logis, ('x', 'm', 's')), Uni(), Dens('vectorized_convolution_of_two_uniforms', trapezoid, ('x', 'm1', 's1', 'm2', 's2')), Histc(), LogisticConv(), Hist()]}
