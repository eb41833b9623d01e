"""C30: option lookup, caches."""
import os, tempfile, shutil, json
from .common import *
from sureal.tools import misc, decorator
MM = 'sureal.tools.misc.'
vL, vB, vN_ = var('L'), var('B'), var('K')
OPT = mk_app('OPT', [ZERO], 'i')
def AV(i): return mk_app('AV', [i], 'i')
class _Opt(Contract):
    """argv of any length (begin B >= 0, B + K - ... = end <= length); strings are compared only for equality, so they are represented by codes"""
    cases = ({'range': 'proper'}, {'range': 'empty'})
    def setup(self, it, case):
        for v in ('B', 'X'): CTX.lower[v] = 0
        CTX.lower['K'] = 1
        self.b = vB
        self.e = vB + vN_ if case['range'] == 'proper' else vB - var('X')
        n = vB + vN_ + var('X') if case['range'] == 'proper' else vB + vN_
        return {'argv': it.new_symlist(n, lambda i: snum(AV(i), kind='i'), owner='argument'), 'b': snum(self.b, kind='i'), 'e': snum(self.e, kind='i'), 'o': snum(OPT, kind='i')}
    def run(self, it, I, case): return it.call(self.fn(), [I['argv'], I['b'], I['e'], I['o']])
    def gen(self, rng, case, hints):
        k, b, x = rng.randint(1, 6), rng.randint(0, 3), rng.randint(0, 3)
        if case['range'] == 'empty': x = min(x, b)
        words = ['--a', '--b', 'v', '1', '']
        n = b + k + x if case['range'] == 'proper' else b + k
        argv = [rng.choice(words) for _ in range(n)]; o = rng.choice(words)
        e = b + k if case['range'] == 'proper' else b - x
        env = T.Env({'B': b, 'K': k, 'X': x}, {'AV': lambda i: words.index(argv[int(i)]), 'OPT': lambda i: words.index(o)})
        env.words = words
        return env, [argv, b, e, o]
    def real(self, nat, case):
        r = self.fn()(*nat)
        return r
class OptGet(_Opt):
    name = 'get_cmd_option'; functions = (MM + name,)
    def fn(self): return misc.get_cmd_option
    def spec(self, I, case):
        if case['range'] == 'empty': return Same(None)
        hit = lambda i: mk_eq(AV(vB + i) - OPT)
        f = T.mk_sel(vN_, hit, ZERO)                      # first occurrence in the range
        none = mk_le(Sigma(vN_, hit))
        code = lambda i: Fn(lambda it, S, got, name, pc: match_sym(it, S, got, Num(AV(vB + i)), name, pc),
                            lambda real, env, rep, name: rep.ok(name) if real == env.words[int(T.evalp(AV(vB + i), env))] else rep.bad(name, real, 'argument after the option'))
        return Cases([(none, Same(None)), (mk_eq(vN_ - 1 - f), Same(None)), (ONE, code(f + 1))])
class OptExists(_Opt):
    name = 'cmd_option_exists'; functions = (MM + name,)
    def fn(self): return misc.cmd_option_exists
    def spec(self, I, case):
        if case['range'] == 'empty': return Num(ZERO)
        return Num(bool_not(mk_le(Sigma(vN_, lambda i: mk_eq(AV(vB + i) - OPT)))))

class _Cache(Contract):
    """histories of calls, replayed on the real cache; bounded: up to 12 calls (one in four: up to 330 calls on up to 300 argument tuples), arguments from a pool of JSON-representable values with distinct printed forms"""
    own = False
    bounded = True; check_inputs = False; nquick = 15; nthorough = 150
    pool = (0, 1, '1', '0', -3, 2.5, 'a', 'b', '', (1, 2), ('a',), (), None, True, 'x' * 40)
    def setup(self, it, case): return {}
    def spec(self, I, case): return Fn(None, lambda real, env, rep, name: rep.ok(name) if real == 'ok' else rep.bad(name, real, 'every call returns what the function returned for these arguments; computed once'))
    def gen(self, rng, case, hints):
        pool = list(self.pool) + list(hints.get('ints', ()))[:5] + list(hints.get('strs', ()))[:5]
        seen = []
        for x in pool:
            if repr(x) not in [repr(y) for y in seen] and not any(x == y for y in seen): seen.append(x)
        calls = []
        long = rng.random() < .25
        argl = [tuple(rng.choice(seen) for _ in range(rng.randint(0, 3))) for _ in range(rng.randint(1, 5) if not long else rng.choice([20, 70, 150, 300]))]
        for _ in range(rng.randint(2, 12)): calls.append(rng.choice(argl))
        if long: calls = argl + [rng.choice(argl) for _ in range(20)] + argl[:3] + calls
        vals = {}
        for a in calls:
            v = rng.choice([None, False, 0, 1.5, 'r', [1, 2], {'k': 1}, [], ''])
            vals.setdefault(a, [v, rng.randint(0, 10 ** 6)] if rng.random() < .7 else v)
        return T.Env({}, {}), (calls, vals, rng.randint(1, 4))
    def real(self, nat, case):
        calls, vals, period = nat
        d = tempfile.mkdtemp(prefix='verif_cache')
        try:
            count = {}
            def make(tag):
                def f(*a):
                    count[tag, a] = count.get((tag, a), 0) + 1
                    return vals[a] if tag == 'f0' else [tag, vals[a]]
                f.__name__ = tag
                return f
            fs = [make('f0'), make('f1')]                                            # two functions share the cache location
            g = [self.wrap(f, d) for f in fs] if not self.own else [self.wrap(f, os.path.join(d, f.__name__)) for f in fs]
            for i, a in enumerate(calls):
                w = (i * 7 + period) % 3 % 2
                if self.reopen and i % period == period - 1: g[w] = self.wrap(fs[w], d if not self.own else os.path.join(d, fs[w].__name__))   # another process takes over the cache on disk
                r = g[w](*a)
                want = vals[a] if w == 0 else ['f1', vals[a]]
                if r != want or type(r) is not type(want): return 'call %d of f%d with %r returned %r' % (i, w, a, r)
                if count['f%d' % w, a] != 1: return 'call %d of f%d with %r computed %d times' % (i, w, a, count['f%d' % w, a])
            return 'ok'
        finally: shutil.rmtree(d, ignore_errors=True)
class Memo(_Cache):
    name = 'memoized'; functions = ('sureal.tools.decorator.memoized.__call__',); reopen = False
    def wrap(self, f, d): return decorator.memoized(f)
class PersistFile(_Cache):
    name = 'persist_to_file'; functions = ('sureal.tools.decorator.persist_to_file',); reopen = True; own = True
    def wrap(self, f, d):
        os.makedirs(d, exist_ok=True)
        return decorator.persist_to_file(os.path.join(d, 'cache.json'))(f)
class PersistDir(_Cache):
    name = 'persist_to_dir'; functions = ('sureal.tools.decorator.persist_to_dir',); reopen = True
    def wrap(self, f, d): return decorator.persist_to_dir(os.path.join(d, 'sub', 'cache'))(f)
CONTRACTS = {'C30': [OptExists(), OptGet(), Memo(), PersistFile(), PersistDir()]}
