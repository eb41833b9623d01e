"""C27: the standalone demonstration programs run the recommended P.910 solver."""
import importlib.util, os, sys, tempfile
from .p910 import *
from .mle import calm

def load_script(path, name):
    full = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(sm.__file__))), path)
    spec = importlib.util.spec_from_file_location(name, full)
    m = importlib.util.module_from_spec(spec); sys.modules[name] = m
    spec.loader.exec_module(m)
    return m
DEMOS = {'p910': load_script('itut_p910_demo/demo_p910.py', 'demo_p910'), 'p913': load_script('itut_p913_demo/demo.py', 'demo_p913'), 'bt500': load_script('itur_bt500_demo/demo_bt500.py', 'demo_bt500')}

class Demo(Contract):
    name = 'run_alternating_projection'
    functions = tuple('demo_%s.%s' % (d, f) for d in DEMOS for f in ('run_alternating_projection', 'get_sos_j', 'one_or_nan', 'weighed_nanmean_2d')) + ('demo_bt500.stack_3rd_dimension_along_axis',)
    cases = tuple({'demo': d} for d in DEMOS)
    rtol = 1e-5
    def vr(self, case): return vR if case['demo'] == 'bt500' else ONE
    def setup(self, it, case):
        dims(E, 'S2', R)
        vr = self.vr(case)
        CTX.forall('PH', 0, lambda t: [('ge1', cnt2_e(t, vr))])
        CTX.forall('PH', 1, lambda t: [('ge1', cnt2_s(t, vr))])
        it.loop_queue = [lambda: p910_loop(vr)]
        if vr is vR: a = it.new_arr((vE, nS2, vR), lambda ix: (PX(*ix), bool_not(PH(*ix))), 'f', owner='votes')
        else: a = it.new_arr((vE, nS2), lambda ix: (PX(*ix, ZERO), bool_not(PH(*ix, ZERO))), 'f', owner='votes')
        return {'votes': a}
    def run(self, it, I, case): return it.call(DEMOS[case['demo']].run_alternating_projection, [I['votes']])
    def spec(self, I, case):
        vr = self.vr(case)
        F = p910_loop(vr).final()
        mb = Sigma(nS2, F['b']) * mk_pow(nS2, -1)
        qs = lambda e: mk_pow(T.mk_relu(sum_over((nS2, vr), lambda s, r: PH(e, s, r) * mk_pow(F['vj'](e), -2))), T.Fr(-1, 2))
        return Map({'mos_j': Arr((vE,), lambda e: F['s'](e) + mb), 'sos_j': Arr((vE,), qs), 'bias_i': Arr((nS2,), lambda s: F['b'](s) - mb), 'inconsistency_i': Arr((nS2,), F['v'])})
    def gen(self, rng, case, hints):
        vr = self.vr(case)
        a = gen_scores(rng, hints, rng.randint(3, 7), rng.randint(3, 6), rng.choice([1, 2, 3]) if vr is vR else 1, min_s=2, mode=rng.choice([0, 0, 4])) if vr is vR else calm(rng, rng.randint(15, 24), rng.randint(8, 12))
        env = T.Env({E: a.shape[0], 'S2': a.shape[1], R: a.shape[2]}, env_array('PX', 'PH', a))
        try: F = p910_loop(vr).iterate(env, 1000)
        except T.EvalError: return None
        if not all(np.isfinite(x).all() for x in F.values()) or (F['v'] < 1e-3).any() or (F['vj'] < 1e-3).any() or F['itr'] >= 999: return None
        return env, [a if vr is vR else a[:, :, 0]]
    def real(self, nat, case): return DEMOS[case['demo']].run_alternating_projection(nat[0])
class DemoCsv(Contract):
    name = 'read_csv_into_array'
    bounded = True
    functions = ('demo_p910.read_csv_into_2darray', 'demo_p913.read_csv_into_2darray', 'demo_bt500.read_csv_into_3darray')
    cases = tuple({'demo': d} for d in DEMOS)
    def setup(self, it, case): dims(E, 'S2', R); return {}
    def spec(self, I, case):
        if case['demo'] == 'bt500': return Arr((vE, nS2, vR), lambda *ix: (PX(*ix), bool_not(PH(*ix))))
        return Arr((vE, nS2), lambda *ix: (PX(*ix, ZERO), bool_not(PH(*ix, ZERO))))
    def gen(self, rng, case, hints):
        three = case['demo'] == 'bt500'
        En, Sn, Rn = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3) if three else 1
        a = np.array([[[rng.choice([float('nan'), float(rng.randint(1, 5)), rng.gauss(3, 1)]) for _ in range(Rn)] for _ in range(Sn)] for _ in range(En)])
        env = T.Env({E: En, 'S2': Sn, R: Rn}, env_array('PX', 'PH', a))
        return env, [a]
    def real(self, nat, case):
        a = nat[0]
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'v.csv')
            with open(p, 'w') as f: f.write(',\n'.join(''.join(','.join(repr(float(x)) for x in row) + '\n' for row in a[:, :, r]) for r in range(a.shape[2])))
            m = DEMOS[case['demo']]
            return m.read_csv_into_3darray(p) if case['demo'] == 'bt500' else m.read_csv_into_2darray(p)
CONTRACTS = {'C27': [Demo(), DemoCsv()]}
