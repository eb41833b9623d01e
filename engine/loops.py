"""Loops: inference of exact loop invariants (closed forms by recurrence solving) for counted loops, comprehensions,
and verification of while-loops against loop contracts."""
import ast
from . import terms as T
from .terms import Poly, ZERO, ONE, const, lift, Unsupported, CTX
from .values import *

# ------------------------------------------------------------------------------------------------ substitution in values
def subst_value(it, v, mp):
    """the value v with index variables replaced (fresh cells for heap values allocated per iteration)"""
    if isinstance(v, SNum): return snum(T.subst(v.val, mp), T.subst(v.nan, mp), v.kind)
    if isinstance(v, ArrRef):
        return subst_arr(it, v, mp)
    if isinstance(v, tuple): return tuple(subst_value(it, x, mp) for x in v)
    if isinstance(v, Rec):
        fc = it.heap.get(v.fam) if hasattr(it.heap, 'get') else it.heap[v.fam]
        if fc is not None and not fc.owner and any(n in fc.n.fv or touches_fields(it, fc, n) for n in mp):
            fam = it.alloc(FamCell(T.subst(fc.n, mp), {q: subst_fun(it, f, mp, fc.n) for q, f in fc.fields.items()}, None, fc.rest, fc.deleted))
            return Rec(fam, T.subst(v.idx, mp))
        return Rec(v.fam, T.subst(v.idx, mp))
    if isinstance(v, Seq): return Seq(T.subst(v.n, mp), subst_fun(it, v.elem, mp, v.n), v.kind)
    if isinstance(v, LRef):
        c = it.heap[v.cell]
        if c.owner: return v
        if c.items is not None: return it.new_list([subst_value(it, x, mp) for x in c.items])
        if c.n is not None: return LRef(it.alloc(ListCell(n=T.subst(c.n, mp), elem=subst_fun(it, c.elem, mp, c.n))))
        if c.bag is not None and isinstance(c.bag, Bag):
            return LRef(it.alloc(ListCell(bag=Bag([([(b, T.subst(n, mp)) for b, n in bs], T.subst(g, mp), subst_value(it, e, mp)) for bs, g, e in c.bag.gens]))))
        raise Unsupported('list under construction in a loop value')
    if isinstance(v, DRef):
        c = it.heap[v.cell]
        if c.owner: return v
        if c.base is not None: raise Unsupported('dict under construction')
        return DRef(it.alloc(DictCell({k: subst_value(it, x, mp) for k, x in c.items.items()}, rest=c.rest, symmap=None if c.symmap is None else c.symmap.subst(it, mp))))
    if isinstance(v, Union_):
        return Union_([(T.subst(c, mp), t, (lambda x=x: subst_value(it, x() if callable(x) and not isinstance(x, (Func, Model)) else x, mp))) for c, t, x in v.alts])
    if hasattr(v, 'sym_subst'): return v.sym_subst(it, mp)
    return v

def subst_fun(it, f, mp, n=None):
    def g(i):
        t = T.fresh('k')
        if n is not None: CTX.varrange[t] = n
        w = f(T.var(t)) if not T.isconst(i) else f(i)
        m2 = dict(mp); m2[t] = i
        return subst_value(it, w, m2)
    return g

def subst_poly_fun(f, mp, n):
    def g(i):
        t = T.fresh('k'); CTX.varrange[t] = n
        return T.subst(f(T.var(t)), dict(mp, **{t: i}))
    return g
def subst_arr(it, a, mp):
    cell = it.heap[a.cell]
    if cell.owner or not touches_cell(it, cell, mp):
        sel = tuple(('fix', T.subst(s[1], mp)) if s[0] == 'fix' else ('ax', s[1], T.subst(s[2], mp)) for s in a.sel)
        return ArrRef(a.cell, sel, tuple(T.subst(d, mp) for d in a.shape))
    rd = it.reader(a)
    shape = tuple(T.subst(d, mp) for d in a.shape)
    def el(idx):
        vs = []; m2 = dict(mp); args = []
        for x, d in zip(idx, a.shape):
            t = T.fresh('k'); CTX.varrange[t] = d
            args.append(T.var(t)); m2[t] = x
        v, n = rd(tuple(args))
        return T.subst(v, m2), T.subst(n, m2)
    return it.new_arr(shape, el, cell.kind)

def touches_fields(it, fc, name):
    """the fields of a family of records mention the variable"""
    t = T.fresh('k'); CTX.varrange[t] = fc.n
    def tv(v):
        if isinstance(v, SNum): return name in v.val.fv or name in v.nan.fv
        if isinstance(v, (tuple, list)): return any(tv(x) for x in v)
        if isinstance(v, (str, bool, int, float, type(None))): return False
        if isinstance(v, Rec): return name in v.idx.fv
        if isinstance(v, LRef):
            c = it.heap[v.cell]
            if c.items is not None: return any(tv(x) for x in c.items)
            if c.n is not None: return name in c.n.fv or tv(c.elem(T.var(t)))
        return True
    return any(tv(f(T.var(t))) for f in fc.fields.values())
def touches_cell(it, cell, mp):
    args = []
    for d in cell.shape:
        if any(n in d.fv for n in mp): return True
        t = T.fresh('k'); CTX.varrange[t] = d; args.append(T.var(t))
    v, n = cell.elem(tuple(args))
    return any(x in v.fv or x in n.fv for x in mp)

# ------------------------------------------------------------------------------------------------ exploring a body
class Path:
    __slots__ = ('pc', 'kind', 'value', 'env', 'heap', 'logs', 'conds')

def explore_body(it, run, names, setup):
    """run the body symbolically once (all paths). setup() puts the state in place. Returns paths; the heap is left as before."""
    from .interp import BreakEx, ContinueEx, ReturnEx, RaiseEx, Outcome, Infeasible
    snap = it.snapshot()
    depth = len(it.frames); d0 = it.depth
    def go():
        it.restore(snap)
        del it.frames[depth:]; it.depth = d0
        setup()
        it.rec_logs.append([])
        kind, val = 'norm', None
        try:
            try: val = run()
            except BreakEx: kind = 'break'
            except ContinueEx: kind = 'norm'
            except ReturnEx as r: kind = 'ret'; val = r.v
            except RaiseEx as r: kind = 'raise'; val = r
            p = Path(); p.kind = kind; p.value = val
            p.env = dict(it.frames[-1].env); p.heap = dict(it.heap)
        finally:
            lg = it.rec_logs.pop()
        p.logs = lg
        return Outcome('x', p)
    try:
        res = it.explore(go)
    finally:
        del it.frames[depth:]; it.depth = d0
        it.restore(snap)
    out = []
    for pc, o, st in res:
        o.value.pc = pc; o.value.conds = list(st.conds); out.append(o.value)
        for i, c in o.value.heap.items():
            if i not in it.heap: it.heap[i] = c
    return out

def log_list_store(it, cellid, p, v):
    if it.rec_logs:
        if isinstance(v, LRef) and any(x[0] == 'list' and x[1] == cellid and x[2] is p and x[3] == v for x in it.rec_logs[-1]): return
        it.rec_logs[-1].append(('list', cellid, p, v))
def log_rec_del(it, fam, k, idx):
    if not it.rec_logs: raise Unsupported('deleting a field of one record')
    it.rec_logs[-1].append(('recdel', fam, k, idx, None))
def log_rec_store(it, fam, k, idx, v):
    if it.rec_logs: it.rec_logs[-1].append(('rec', fam, k, idx, v))

def fold_paths(it, paths, get):
    r = get(paths[-1])
    for p in reversed(paths[:-1]):
        r = it.merge(p.pc, get(p), r)
    return r

def generic_value(it, f, n, what='element'):
    """evaluate f at a generic index; returns (k, value) merged over paths; raising paths are turned into an outer branch"""
    from .interp import RaiseEx
    k = T.fresh('k'); CTX.varrange[k] = n
    kv = T.var(k)
    paths = explore_body(it, lambda: f(kv), (), lambda: None)
    paths = outer_raise(it, paths, k, n)
    if not paths: raise Unsupported('no path')
    for p in paths:
        for i, c in p.heap.items():
            if i in it.heap and it.heap[i] is not c: raise Unsupported('side effect in ' + what)
        if p.kind != 'norm': raise Unsupported('control flow in ' + what)
    return k, fold_paths(it, paths, lambda p: p.value)

def outer_raise(it, paths, k, n):
    from .interp import RaiseEx
    bad = [p for p in paths if p.kind == 'raise']
    if not bad: return paths
    good = [p for p in paths if p.kind != 'raise']
    c = T.psum(p.pc for p in bad)
    some = T.mk_le(T.sub(ONE, T.mk_sum([(k, n)], c)))
    if it.branch(some):
        # the first offending element decides the exception; all alternatives have the same type here
        ty = set(p.value.etype for p in bad)
        if len(ty) > 1: raise Unsupported('different exceptions in one loop')
        raise bad[0].value
    return good

def map_seq(it, seq, f):
    k, v = generic_value(it, lambda i: f(seq.elem(i)), seq.n)
    return Seq(seq.n, lambda i: subst_value(it, v, {k: i}))

def filter_seq(it, seq, f):
    k, g = generic_value(it, lambda i: snum(it.truthp(f(seq.elem(i))), kind='b'), seq.n)
    g = it.truthp(g)
    c = lambda i: T.subst(g, {k: i})
    if g is ONE: return seq
    return Seq(T.mk_cnt(seq.n, c), lambda i: seq.elem(T.mk_sel(seq.n, c, i)))

class SymMap:
    """dictionary built by  for k<n: d[key(k)] = val(k)  (later keys win)"""
    def __init__(self, it, n, key, val, guard=None):
        self.n = n; self.key = key; self.val = val; self.guard = guard or (lambda i: ONE)
    def subst(self, it, mp):
        return SymMap(it, T.subst(self.n, mp), subst_fun(it, self.key, mp, self.n), subst_fun(it, self.val, mp, self.n), lambda i: subst_poly_fun(self.guard, mp, self.n)(i))
    def eq(self, it, k, q):
        return T.mul(self.guard(k), it.truthp(it.np.compare(it, ast.Eq(), self.key(k), q)))
    def contains(self, it, q):
        return snum(it.np.poly_any(self.n, lambda k: self.eq(it, k, q)), kind='b')
    def getitem(self, it, q):
        from .interp import RaiseEx
        if not it.truth(self.contains(it, q)): raise RaiseEx(KeyError, 'key')
        c = lambda k: self.eq(it, k, q)
        # unique key?  key(k) == key(j) <=> k == j
        kk = T.fresh('k'); CTX.varrange[kk] = self.n
        cc = c(T.var(kk))
        if len(cc.t) == 1:
            (m, co), = cc.t.items()
            for a, e in m:
                if a.kind == 'eq':
                    r = T._solve_eq(a.args[0], kk, self.n)
                    if r is not None: return self.val(r[1])
        return self.val(T.mk_sel(self.n, c, T.sub(T.mk_cnt(self.n, c), ONE)))

def dict_of_seq(it, seq):
    k, v = generic_value(it, lambda i: seq.elem(i), seq.n)
    if not isinstance(v, tuple) or len(v) != 2: raise Unsupported('dict of sequence')
    return SymMap(it, seq.n, lambda i: subst_value(it, v[0], {k: i}), lambda i: subst_value(it, v[1], {k: i}))

def sorted_bag(it, bag):
    """sorted list of the distinct elements of a bag of names (elements of one strictly increasing family)"""
    if not (isinstance(bag, tuple) and bag[0] == 'set'): raise Unsupported('sorted of unordered list')
    fam = None; w = T.fresh('k')
    for bs, g, e in bag[1].gens:
        if not isinstance(e, SNum): raise Unsupported('sorted set of %r' % (e,))
        a = the_atom(e.val) if len(e.val.t) == 1 else None
        if a is None or a.kind != 'app' or a.args[0] not in CTX.increasing or e.val is not T.apoly(a) or fam not in (None, a.args[0]): raise Unsupported('sorted set')
        fam = a.args[0]; kind = e.kind
    if fam is None: raise Unsupported('sorted of an empty set')
    n = CTX.increasing[fam]; CTX.varrange[w] = n
    tot = []
    for bs, g, e in bag[1].gens:
        b = T.mul(g, T.mk_eq(T.sub(the_atom(e.val).args[1], T.var(w))))
        tot.append(T.mk_sum(list(bs), b) if bs else b)
    c = T.mk_le(T.sub(ONE, T.psum(tot)))
    cf = lambda i: T.simp(T.subst(c, {w: i}))
    return it.new_symlist(T.mk_cnt(n, cf), lambda i: SNum(T.mk_app(fam, [T.mk_sel(n, cf, i)], 'i'), ZERO, kind))

# ------------------------------------------------------------------------------------------------ comprehensions
def comprehension(it, node, kind):
    fr = it.frames[-1]
    saved = dict(fr.env)
    try: return _comp(it, node, kind, 0)
    finally:
        fr.env.clear(); fr.env.update(saved)

def _elt(it, node, kind):
    if kind == 'dict': return (it.ev(node.key), it.ev(node.value))
    return it.ev(node.elt)

def _comp(it, node, kind, depth):
    out = _comp_items(it, node, kind, 0)
    if isinstance(out, list):
        if kind == 'dict': return it.new_dict({it.np.key(it, a): b for a, b in out}) if not any(isinstance(a, SNum) for a, b in out) else _symdict(it, out)
        if kind == 'set': return it.np.make_set(it, out)
        if kind == 'gen': return out
        return it.new_list(out)
    if isinstance(out, Bag):
        if kind == 'set': return it.np.SetRef(it.alloc(it.np.SetCell_(bag=out)))
        return LRef(it.alloc(ListCell(bag=out)))
    if kind == 'dict': return dict_of_seq(it, out)
    if kind == 'set': return SetRef(it.alloc(it.np.SetCell_(bag=it.np.to_bag(it, out))))
    if kind == 'gen': return out
    return it.new_symlist(out.n, out.elem)

def _symdict(it, out): raise Unsupported('symbolic keys')

def _comp_items(it, node, kind, gi):
    gens = node.generators
    if gi == len(gens): return [_elt(it, node, kind)]
    g = gens[gi]
    s = it.ev(g.iter)
    if isinstance(s, (LRef, SetRef)) and gi == len(gens) - 1:
        b = it.np.set_view(it, s)[1] if isinstance(s, SetRef) else it.heap[s.cell].bag
        if isinstance(s, SetRef) and isinstance(b, Bag) and kind != 'set': raise Unsupported('list over a set')
        if isinstance(b, Bag):                    # elements in unspecified order: a bag again
            out = []
            for bs, gd, x in b.gens:
                it.assign(g.target, x)
                for c in g.ifs: gd = T.mul(gd, it.truthp(it.ev(c)))
                out.append((bs, gd, _elt(it, node, kind)))
            return Bag(out)
    s = it.as_seq(s)
    if isinstance(s, Seq) and T.simp(T.mk_le(s.n)) is ONE: s = []
    if isinstance(s, Seq) and T.isconst(T.simp(s.n)) and T.cval(T.simp(s.n)) <= 32:
        m = s; s = [m.elem(const(i)) for i in range(int(T.cval(T.simp(m.n))))]
    if isinstance(s, list) or not isinstance(s, Seq):
        parts = []
        for x in s:
            it.assign(g.target, x)
            ok = True
            for c in g.ifs:
                if not it.truth(it.ev(c)): ok = False; break
            if not ok: continue
            parts.append(_comp_items(it, node, kind, gi + 1))
        if all(isinstance(p, list) for p in parts): return [x for p in parts for x in p]
        r = parts[0]
        for p in parts[1:]:
            q = it.np.concat_seq(it, r, p); r = it.as_seq(q)
        return r
    fr = it.frames[-1]
    env0 = dict(fr.env)
    def at(i):
        it.assign(g.target, s.elem(i))
    base = s
    if g.ifs:
        def cond(i):
            at(i)
            acc = ONE
            for c in g.ifs:
                acc = T.mul(acc, it.truthp(it.ev(c)))
            return snum(acc, kind='b')
        k, cv = generic_value(it, cond, s.n, 'filter')
        cp = it.truthp(cv)
        if cp is not ONE:
            c = lambda i: T.subst(cp, {k: i})
            n2 = T.mk_cnt(s.n, c)
            s0 = s
            s = Seq(n2, lambda i: s0.elem(T.mk_sel(s0.n, c, i)))
    def val(i):
        it.assign(g.target, s.elem(i))
        r = _comp_items(it, node, kind, gi + 1)
        return r
    if gi == len(gens) - 1:
        k, v = generic_value(it, lambda i: val(i)[0], s.n)
        v = familise(it, v, k, s.n)
        return Seq(s.n, v)
    # nested generators
    from .interp import RaiseEx
    k = T.fresh('k'); CTX.varrange[k] = s.n
    snap = it.snapshot()
    r = val(T.var(k))
    fr.env.clear(); fr.env.update(env0)
    if isinstance(r, list):
        m = len(r)
        if m == 1: return Seq(s.n, lambda i: subst_value(it, r[0], {k: i}))
        raise Unsupported('nested comprehension')
    if isinstance(r, Bag):
        return Bag([([(k, s.n)] + bs, g2, e) for bs, g2, e in r.gens])
    if k in r.n.fv:
        j = T.fresh('k'); CTX.varrange[j] = r.n
        return Bag([([(k, s.n), (j, r.n)], ONE, r.elem(T.var(j)))])
    def el(i):
        q = T.mk_div(i, r.n); rm = T.sub(i, T.mul(q, r.n))
        j = T.fresh('k'); CTX.varrange[j] = r.n
        return subst_value(it, r.elem(T.var(j)), {k: q, j: rm})
    return Seq(T.mul(s.n, r.n), el)

def familise(it, v, k, n):
    """per-iteration value -> function of the index. Dictionaries created per iteration become one family of records"""
    if isinstance(v, DRef) and not it.heap[v.cell].owner:
        c = it.heap[v.cell]
        if c.base is not None: raise Unsupported('dict under construction')
        if c.symmap is not None: return lambda i: subst_value(it, v, {k: i})
        fields = {}
        for name, x in c.items.items():
            fields[name] = familise(it, x, k, n)
        fam = it.alloc(FamCell(n, fields, None, c.rest))
        return lambda i: Rec(fam, i)
    return lambda i: subst_value(it, v, {k: i})

# ------------------------------------------------------------------------------------------------ counted loops
def assigned_names(stmts):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
        def visit_NamedExpr(self, n): out.add(n.target.id); self.generic_visit(n)
    for s in stmts: V().visit(s)
    return out

class Loc:
    """a location modified by the loop, with its placeholder"""
    __slots__ = ('kind', 'key', 'init', 'ph', 'phn', 'ty', 'V', 'at', 'final', 'app', 'appn', 'done', 'mode', 'info')
    def __init__(self, kind, key, init): self.kind = kind; self.key = key; self.init = init; self.done = False; self.ph = self.phn = None; self.app = self.appn = None; self.mode = None; self.info = None; self.ty = None; self.at = self.final = None

def for_loop(it, node, seq):
    from .interp import RaiseEx, ReturnEx
    n = T.simp(seq.n)
    if T.isconst(n) and T.cval(n) <= 0 or T.mk_le(n) is ONE:
        it.block(node.orelse); return
    has_break = any(isinstance(x, ast.Break) for s in node.body for x in ast.walk(s))
    key = loop_key(it, node)
    if has_break and it.loop_queue and solver_like(node): return contract_loop(it, node, seq)
    k = T.fresh('k'); CTX.varrange[k] = n; kv = T.var(k)
    fr = it.frames[-1]
    tnames = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))])
    names = (assigned_names(node.body) | tnames)
    locs = {}
    for nm in sorted(names):
        if nm in tnames: continue
        if nm in fr.env: locs[('n', nm)] = Loc('n', nm, fr.env[nm])
    run = lambda: it.block(node.body)
    pre_heap = dict(it.heap)
    for rnd in range(6):
        def setup():
            it.assign(node.target, seq.elem(kv))
            for nm in names - tnames:
                if nm not in fr.env: fr.env[nm] = Undef('%s before assignment in the loop' % nm)
            for l in locs.values(): place(it, l)
        for l in locs.values(): make_placeholder(it, l)
        paths = explore_body(it, run, names, setup)
        new = False
        for p in paths:
            for i, c in p.heap.items():
                if i in pre_heap and ('h', i) not in locs and c is not pre_heap[i]:
                    l = locs[('h', i)] = Loc('h', i, pre_heap[i]); new = True
                    classify(it, l, c, p, k)
            for l in list(locs.values()):
                if l.kind == 'n' and l.ty is not None:
                    v = p.env.get(l.key)
                    if it.is_num(v):
                        nv = it.num(v)
                        if nv.kind != l.ty[0] and l.ty[0] != 'f':
                            l.ty = ('f' if nv.kind == 'f' else 'i', l.ty[1]); new = True
                        if nv.nan is not ZERO and not l.ty[1]: l.ty = (l.ty[0], True); new = True
        if not new: break
    else: raise Unsupported('loop state does not stabilise')
    # exceptional exits
    paths = outer_raise(it, paths, k, n)
    rets = [p for p in paths if p.kind == 'ret']
    brks = [p for p in paths if p.kind == 'break']
    norm = [p for p in paths if p.kind == 'norm']
    if rets or brks:
        return search_loop(it, node, seq, n, k, kv, paths, rets, brks, norm, locs, names, tnames)
    summarise(it, node, n, k, norm, locs, names, tnames, seq)
    it.block(node.orelse)

def loop_key(it, node):
    f = it.frames[-1].func
    return getattr(f, '__qualname__', getattr(f, 'name', '?'))

def make_placeholder(it, l):
    if l.ph is not None: return
    if l.kind == 'n':
        v = l.init
        if it.is_num(v):
            x = it.num(v)
            if getattr(l, 'ty', None) is None: l.ty = (x.kind, x.nan is not ZERO)
            l.ph = T.fresh('P'); l.phn = T.fresh('Q')
            return
        l.ty = None
        if isinstance(v, ArrRef):
            l.app = T.fresh('PA'); l.appn = T.fresh('PN'); l.ph = l.app
            return
        l.ph = 'keep'
        return
    c = l.init; l.ty = None
    if isinstance(c, ArrCell):
        l.app = T.fresh('PA'); l.appn = T.fresh('PN'); l.ph = l.app
    else: l.ph = 'keep'

def scalar_ph(l):
    sort = 'i' if l.ty[0] == 'i' else ('b' if l.ty[0] == 'b' else 'r')
    return T.var(l.ph, sort), (T.var(l.phn, 'b') if l.ty[1] else ZERO)

def app_elem(l, isint=False):
    return lambda idx: (T.mk_app(l.app, list(idx), 'i' if isint else 'r'), T.mk_app(l.appn, list(idx), 'b'))

def place(it, l):
    if l.kind == 'n':
        env = it.frames[-1].env
        if l.ty is not None:
            v, nn = scalar_ph(l)
            env[l.key] = SNum(v, nn, l.ty[0]); return
        if l.app is not None:
            a = l.init
            env[l.key] = it.new_arr(a.shape, app_elem(l), it.kind(a)); return
        if isinstance(l.init, (LRef, DRef, ORef, SetRef, Rec)): return        # same object unless rebound
        env[l.key] = Undef('%s from an earlier iteration' % l.key)
        return
    c = l.init
    if isinstance(c, ArrCell):
        it.heap[l.key] = ArrCell(c.shape, app_elem(l), c.kind, (), c.owner)
    elif isinstance(c, ListCell):
        if l.mode == 'store':
            it.heap[l.key] = ListCell(n=c.n, elem=lambda i: SNum(*[f for f in app_elem(l)((i,))], l.info), owner=c.owner)
        elif l.mode == 'bagstore':
            it.heap[l.key] = ListCell(n=c.n, elem=lambda i: LRef(it.alloc(ListCell(base=('slot', l.key, i), grow=()))), owner=c.owner)
        elif l.mode == 'items':
            it.heap[l.key] = ListCell(items=tuple(SNum(T.mk_app(l.app, [const(j)]), ZERO, 'f') for j in range(len(c.items))), owner=c.owner)
        elif c.items is not None or c.n is not None or c.bag is not None:
            it.heap[l.key] = ListCell(base=l.key, grow=(), owner=c.owner)
    elif isinstance(c, DictCell):
        if c.symmap is not None: raise Unsupported('symbolic dict changed in a loop')
        it.heap[l.key] = DictCell(c.items, l.key, (), c.owner, c.rest)
    elif isinstance(c, FamCell):
        f = dict(c.fields)
        for name, idx in (l.info or {}).items():
            if name in f:
                f[name] = guard_field(f[name], idx, name)
        it.heap[l.key] = FamCell(c.n, f, c.owner, c.rest, c.deleted)
    elif isinstance(c, ObjCell): pass
    else: raise Unsupported('loop modifies %s' % type(c).__name__)

def guard_field(f, idx, name):
    def g(i):
        if T.is_zero(T.sub(i, idx)): return f(i)
        raise Unsupported('reading field %r of another record than the one being written' % name)
    return g

def classify(it, l, c, p, k):
    i = l.init
    if isinstance(i, ListCell):
        if isinstance(c, ListCell) and c.n is not None and i.n is not None and c.n is i.n:
            j = T.fresh('k'); CTX.varrange[j] = i.n
            e = i.elem(T.var(j))
            if it.is_num(e):
                l.mode = 'store'; l.app = T.fresh('PA'); l.appn = T.fresh('PN'); l.info = it.num(e).kind
                kinds = [it.num(x[3]).kind for x in p.logs if x[0] == 'list' and x[1] == l.key and it.is_num(x[3])]
                if 'f' in kinds: l.info = 'f'
            elif isinstance(e, LRef): l.mode = 'bagstore'
            else: raise Unsupported('stores into a list of %r' % (e,))
        elif isinstance(c, ListCell) and i.items is not None and c.items is not None and len(i.items) == len(c.items):
            l.mode = 'items'; l.app = T.fresh('PA')
        else: l.mode = 'grow'
    elif isinstance(i, FamCell):
        l.info = {x[2]: x[3] for x in p.logs if x[1] == l.key}

# -- recurrences
def has_ph(p, l):
    if l.ty is not None and l.kind == 'n':
        return l.ph in p.fv or l.phn in p.fv
    return False

def apps_in(p, names, out=None):
    """application atoms with head in names occurring anywhere in p"""
    out = set() if out is None else out
    seen = set()
    def px(x):
        if isinstance(x, Poly):
            if x in seen: return
            seen.add(x)
            for m in x.t:
                for a, e in m: ax(a)
        elif isinstance(x, T.Atom): ax(x)
        elif isinstance(x, tuple):
            for y in x: px(y)
    def ax(a):
        if a in seen: return
        seen.add(a)
        if a.kind == 'app' and a.args[0] in names: out.add(a)
        for x in a.args: px(x)
    px(p)
    return out

def coeff(p, at):
    """p = A*at + R, both free of at; None if not linear"""
    A = {}; R = {}
    for m, c in p.t.items():
        e = dict(m).get(at, 0)
        if e == 0: R[m] = c
        elif e == 1: A[tuple(x for x in m if x[0] is not at)] = c
        else: return None
    A = T._mkpoly(A); R = T._mkpoly(R)
    return A, R

def contains_atom(p, at):
    if at.kind == 'var': return at.args[0] in p.fv
    return at in apps_in(p, {at.args[0]})

def k_at_least_one(it, n):
    c = T.mk_le(T.sub(ONE, n))
    return it.branch(c)

def solve_scalar(it, V, at, init, k, n, kind):
    """V: new value as poly in at (placeholder atom) and k. returns (at_k, final) closed forms"""
    va = T.apoly(at)
    sh = lambda p, i: T.subst(p, {k: i})
    if not contains_atom(V, at):
        final = lambda: None
        if V is init: return init, (lambda: init)
        atk = T.ite(T.mk_eq(T.var(k)), init, sh(V, T.sub(T.var(k), ONE)))
        def fin():
            if not k_at_least_one(it, n): return init
            return sh(V, T.sub(n, ONE))
        return atk, fin
    r = coeff(V, at)
    if r is not None and not contains_atom(r[0], at) and not contains_atom(r[1], at):
        A, R = r
        if A is ONE:
            j = T.fresh('k'); CTX.varrange[j] = T.var(k)
            atk = T.add(init, T.mk_sum([(j, T.var(k))], sh(R, T.var(j)))) if k in R.fv else T.add(init, T.mul(T.var(k), R))
            tot = T.mk_sum([(k, n)], R)
            return atk, (lambda: T.add(init, tot))
        g = T.sub(ONE, A)
        if T.boolean(g):
            # guarded assignment: last k with g
            W = R          # = g * W
            c = lambda i: sh(g, i)
            def fin():
                if not (k in W.fv) and is_factor(W, g) is not None:
                    w = is_factor(W, g)
                    return T.ite(T.mk_le(T.sub(ONE, T.mk_cnt(n, c))), w, init)
                some = T.mk_le(T.sub(ONE, T.mk_cnt(n, c)))
                ks = T.mk_sel(n, c, T.sub(T.mk_cnt(n, c), ONE))
                w = is_factor(W, g)
                if w is None: raise Unsupported('guarded assignment in a loop')
                return T.ite(some, sh(w, ks), init)
            return None, fin
    # running maximum / minimum:  V = ite(P < B and g, B, P)
    r = running_ext(V, at, k)
    if r is not None:
        name, B, g = r
        val = B; guard = g
        def fin():
            # over an empty range or where no iteration passes the guard the extremum is below (above) everything: the initial value stays
            ext = T.mk_red(name, [(k, n)], (T.mul(val, guard), guard), () if guard is ONE and T.mk_le(T.sub(ONE, n)) is ONE else ('lo',), 'i' if T.is_int(B) else 'r')
            return (T.mk_max if name == 'max' else T.mk_min)(init, ext)
        return None, fin
    raise Unsupported('recurrence %s' % T.pp(V)[:200])

def is_factor(W, g):
    """w with W == g*w"""
    if T.is_zero(T.sub(W, g)): return ONE
    # cofactor at all atoms of g set to the satisfying assignment when g is a product of literals
    if len(g.t) == 1:
        (m, c), = g.t.items()
        w = W
        for a, e in m: w = T.cofactor(w, a)[0]
        if T.is_zero(T.sub(W, T.mul(g, w))): return w
    if T.is_zero(T.sub(W, T.mul(g, W))): return W
    return None

def running_ext(V, at, k):
    P = T.apoly(at)
    cmps = set()
    for m in V.t:
        for a, e in m:
            if a.kind in ('le', 'lt', 'relu') and contains_atom(a.args[0], at): cmps.add(a)
    for a in sorted(cmps, key=lambda x: x.skey):
        r = coeff(a.args[0], at)
        if r is None or contains_atom(r[1], at) or not T.isconst(r[0]): continue
        c = T.cval(r[0])
        B0 = T.scale(r[1], -1 / c)                # comparison threshold  P ? B
        if a.kind in ('le', 'lt'):                # V = P on one side of the comparison, (1-g) P + g B on the other
            v1, v0 = T.cofactor(V, a)             # a holds: P <= B0 (c > 0) / P >= B0 (c < 0)
            for keep, oth, big in ((v1, v0, c < 0), (v0, v1, c > 0)):        # P is kept where it is the larger (big) / smaller one
                if keep is not P: continue
                d = T.sub(oth, P); g = guess_guard(d, at)
                if g is None: continue
                for off in (0, 1, -1) if T.is_int(B0) else (0,):
                    B = T.add(B0, const(off))
                    if not T.is_zero(T.sub(d, T.mul(g, T.sub(B, P)))): continue
                    if off == 0 or (a.kind == 'le' and T.is_int(P) and off == (1 if c > 0 else -1)):
                        return ('max' if big else 'min'), B, g
        for off in (0, 1, -1) if T.is_int(B0) else (0,):
            B = T.add(B0, const(off))
            for name, f in (('max', T.mk_max), ('min', T.mk_min)):
                full = f(P, B)
                if T.is_zero(T.sub(V, full)): return name, B, ONE
        # guarded:  V = (1-g) P + g max(P,B)
            for name, f in (('max', T.mk_max), ('min', T.mk_min)):
                delta = T.sub(V, P); d2 = T.sub(f(P, B), P)
                g = guess_guard(delta, at)
                if g is not None and T.is_zero(T.sub(delta, T.mul(g, d2))): return name, B, g
    return None

def guess_guard(delta, at):
    """common indicator factors of all monomials, free of the placeholder"""
    common = None
    for m in delta.t:
        s = {a for a, e in m if T.nonneg_atom(a) is not None and a.kind in ('le', 'lt', 'eq', 'app', 'pb') and a.sort == 'b' or a.kind in ('le', 'lt', 'eq')}
        s = {a for a in s if not contains_atom(a.args[0] if isinstance(a.args[0], Poly) else ONE, at)}
        common = s if common is None else common & s
    if common is None: return None
    return T.prod([T.apoly(a) for a in common])

class Lazy:
    """value a name has after the loop, computed on first use"""
    def __init__(self, f): self.f = f
    def force(self): return self.f()

class Solver:
    def __init__(self, it, node, n, k, paths, locs):
        self.it = it; self.n = n; self.k = k; self.paths = paths; self.locs = locs
        self.vmap = {}        # scalar placeholder -> closed form at iteration k
        self.amaps = {}       # array placeholder app -> function(args)
        self.phs = {}
        for l in locs.values():
            if l.kind == 'n' and l.ty is not None: self.phs[l.ph] = l; self.phs[l.phn] = l
        self.apps = {}
        for l in locs.values():
            if l.app: self.apps[l.app] = l
            if l.appn: self.apps[l.appn] = l
    def unresolved(self, p, own=()):
        """placeholders of other locations still present"""
        r = {x for x in self.phs if x in p.fv and x not in own}
        r |= {a.args[0] for a in apps_in(p, set(self.apps)) if a.args[0] not in own}
        return r
    def sub(self, p):
        if not self.vmap and not self.amaps: return p
        def am(a):
            if a.kind == 'app' and a.args[0] in self.amaps:
                return self.amaps[a.args[0]](tuple(self.sub(x) for x in a.args[1:]))
            return None
        mp = {x: v for x, v in self.vmap.items() if x in p.fv}
        if not mp and not (self.amaps and apps_in(p, set(self.amaps))): return p
        return T.rebuild(p, mp, am if self.amaps else None)
    def subv(self, v):
        """closed forms substituted in a value"""
        it = self.it
        if isinstance(v, SNum): return snum(self.chk(self.sub(v.val)), self.chk(self.sub(v.nan)), v.kind)
        if isinstance(v, tuple): return tuple(self.subv(x) for x in v)
        if isinstance(v, ArrRef):
            sh = []
            for d in v.shape: sh.append(self.chk(self.sub(d)))
            cell = it.heap[v.cell]
            ix = []
            for d in cell.shape:
                t = T.fresh('k'); CTX.varrange[t] = d; ix.append(T.var(t))
            a, b = cell.elem(tuple(ix))
            sels = [s[1] if s[0] == 'fix' else s[2] for s in v.sel]
            if not self.has(a) and not self.has(b) and not any(self.has(s) for s in sels) and all(x is y for x, y in zip(sh, v.shape)): return v
            rd = it.reader(v)
            def el(idx):
                ts = []; mp = {}
                for x, d in zip(idx, v.shape):
                    t = T.fresh('k'); CTX.varrange[t] = d; ts.append(T.var(t)); mp[t] = x
                x, y = rd(tuple(ts))
                return T.subst(self.chk(self.sub(x)), mp), T.subst(self.chk(self.sub(y)), mp)
            return it.new_arr(sh, el, cell.kind)
        if isinstance(v, LRef):
            c = it.heap[v.cell]
            if c.items is not None and not c.owner:
                new = [self.subv(x) for x in c.items]
                return v if all(x is y for x, y in zip(new, c.items)) else it.new_list(new)
            return v
        if isinstance(v, DRef):
            c = it.heap[v.cell]
            if c.owner or c.base is not None: return v
            new = {q: self.subv(x) for q, x in c.items.items()}
            return v if all(new[q] is c.items[q] for q in new) else DRef(it.alloc(DictCell(new, rest=c.rest)))
        if isinstance(v, Rec): return Rec(v.fam, self.chk(self.sub(v.idx)))
        return v
    def has(self, p): return any(x in p.fv for x in self.phs) or bool(apps_in(p, set(self.apps)))
    def chk(self, p):
        if self.unresolved(p): raise Unsupported('loop value depends on an unsolved location')
        return p

def summarise(it, node, n, k, paths, locs, names, tnames, seq):
    fr = it.frames[-1]
    if not paths: raise Unsupported('loop body always raises')
    S = Solver(it, node, n, k, paths, locs)
    kv = T.var(k)
    pend = list(locs.values())
    results = []          # (loc, thunk installing the final value)
    # scalar and array recurrences
    for l in list(pend):
        if l.kind == 'n' and l.ty is None and l.app is None:
            vals = [p.env.get(l.key) for p in paths]
            if all(v is l.init or (isinstance(v, Ref) and v == l.init) for v in vals): pend.remove(l)     # not rebound
    progress = True
    while pend and progress:
        progress = False
        for l in list(pend):
            if solve_loc(it, S, l, k, n, results):
                pend.remove(l); progress = True
    if pend: raise Unsupported('loop recurrence of %s' % ', '.join(str(l.key) for l in pend))
    for f in results: f()
    # names bound only inside
    before = dict(fr.env)
    for nm in names:
        if ('n', nm) in locs:
            continue
        vals = [p.env.get(nm) for p in paths]
        def force(nm=nm, vals=vals):
            v = T.mk_le(T.sub(ONE, n))
            if v is not ONE and not it.branch(v):
                if nm in tnames and nm in before: return before[nm]
                raise Unsupported('%s unbound when the loop is empty' % nm)
            x = fold_paths(it, paths, lambda p: p.env.get(nm))
            return subst_value(it, S.subv(x), {k: T.sub(n, ONE)})
        if any(isinstance(v, Undef) or v is None for v in vals) and nm not in tnames:
            fr.env[nm] = Undef('%s after the loop' % nm)
        else:
            fr.env[nm] = Lazy(force)
    it.loopinfo.append((loop_key(it, node), node.lineno, len(locs)))

def solve_loc(it, S, l, k, n, results):
    paths = S.paths
    if l.kind == 'n' and l.ty is not None:
        vals = [p.env.get(l.key) for p in paths]
        if not all(it.is_num(v) for v in vals): raise Unsupported('variable %s changes type in a loop' % l.key)
        V = it.num(fold_paths(it, paths, lambda p: p.env[l.key]))
        val = S.sub(V.val); nan = S.sub(V.nan)
        if S.unresolved(val, (l.ph, l.phn)) or S.unresolved(nan, (l.ph, l.phn)): return False
        init = it.num(l.init)
        at = list(list(scalar_ph(l)[0].t)[0])[0][0]
        atk, fin = solve_scalar(it, val, at, init.val, k, n, l.ty[0])
        if l.ty[1]:
            natom = list(list(T.var(l.phn, 'b').t)[0])[0][0]
            natk, nfin = solve_nan(it, nan, natom, init.nan, k, n)
        else: natk, nfin = ZERO, (lambda: ZERO)
        if atk is not None: S.vmap[l.ph] = atk
        if natk is not None: S.vmap[l.phn] = natk
        if atk is None or natk is None: S.noat = getattr(S, 'noat', set()) | {l.ph}
        kind = l.ty[0]
        def install(): 
            it.frames[-1].env[l.key] = snum(fin(), nfin(), kind)
        results.append(install); return True
    if l.kind == 'n' and l.app is not None:
        vals = [p.env.get(l.key) for p in paths]
        if all(isinstance(v, ArrRef) for v in vals):
            V = fold_paths(it, paths, lambda p: p.env[l.key])
            if len(V.shape) != len(l.init.shape): raise Unsupported('array changes shape in loop')
            rd = it.reader(V); ird = it.reader(l.init)
            shape = l.init.shape; kind = it.kind(V)
            same_shape = all(T.is_zero(T.sub(a, b)) for a, b in zip(shape, V.shape))
            if not same_shape: raise Unsupported('array changes shape in loop')
            r = solve_array(it, S, l, shape, rd, ird, k, n, None)
            if r is None: return False
            results.append(lambda: it.frames[-1].env.__setitem__(l.key, it.new_arr(shape, r(), kind)))
            return True
        raise Unsupported('variable %s changes type in a loop' % l.key)
    if l.kind == 'n':
        # rebinding of a non-numeric value: only the last value is known
        vals = [p.env.get(l.key) for p in paths]
        def install():
            it.frames[-1].env[l.key] = Undef('%s after the loop' % l.key)
        v0 = vals[0]
        if all(type(v) is type(v0) for v in vals) and (isinstance(v0, (str, type(None))) and all(v == v0 for v in vals)):
            def install(): it.frames[-1].env[l.key] = v0 if it.branch(T.mk_le(T.sub(ONE, n))) else l.init
        else:
            def force():
                if not it.branch(T.mk_le(T.sub(ONE, n))): return l.init
                return subst_value(it, S.subv(fold_paths(it, paths, lambda p: p.env[l.key])), {k: T.sub(n, ONE)})
            def install(): it.frames[-1].env[l.key] = Lazy(force)
        results.append(install); return True
    c = l.init
    if isinstance(c, ArrCell):
        cells = [p.heap[l.key] for p in paths]
        def rd(ix):
            v = cells[-1].elem(ix)
            for p, cc in zip(reversed(paths[:-1]), reversed(cells[:-1])):
                w = cc.elem(ix)
                v = (T.ite(p.pc, w[0], v[0]), T.ite(p.pc, w[1], v[1]))
            return v
        r = solve_array(it, S, l, c.shape, rd, c.elem, k, n, cells)
        if r is None: return False
        def install():
            own = c.owner
            it.write(l.key, ArrCell(c.shape, r(), cells[0].kind, None, own), 'array element (loop)')
            relog(it, l, c)
        results.append(install); return True
    if isinstance(c, ListCell): return solve_list(it, S, l, c, k, n, results)
    if isinstance(c, FamCell): return solve_fam(it, S, l, c, k, n, results)
    if isinstance(c, DictCell): return solve_dict(it, S, l, c, k, n, results)
    raise Unsupported('loop modifies an object attribute')

def relog(it, l, c):
    """keep the store log of an outer loop consistent"""
    if c.log is not None:
        cell = it.heap[l.key]
        n = ArrCell(cell.shape, cell.elem, cell.kind, c.log + (('loop',),), cell.owner)
        it.heap[l.key] = n

def solve_nan(it, V, at, init, k, n):
    sh = lambda p, i: T.subst(p, {k: i})
    if not contains_atom(V, at):
        if V is init: return init, (lambda: init)
        return T.ite(T.mk_eq(T.var(k)), init, sh(V, T.sub(T.var(k), ONE))), (lambda: sh(V, T.sub(n, ONE)) if k_at_least_one(it, n) else init)
    r = coeff(V, at)
    if r is None or contains_atom(r[0], at) or contains_atom(r[1], at): raise Unsupported('nan recurrence')
    A, R = r
    if A is ONE and not R.t: return init, (lambda: init)
    if T.is_zero(T.sub(A, T.sub(ONE, R))):
        some = lambda: T.bool_or(init, T.mk_le(T.sub(ONE, T.mk_sum([(k, n)], R))))
        return None, some
    raise Unsupported('nan recurrence')

def block_solution(it, S, l, cells, k, n, ix):
    """single store per iteration through selectors: solve for the iteration that wrote base element ix.
    returns (guard, kstar, value) or None"""
    if cells is None or len(cells) != 1: return None
    log = cells[0].log
    if not log or len(log) != 1 or log[0][0] == 'loop': return None
    a, G, W, info, back = log[0]
    if info[0] != 'sel': return None
    sels = info[1]
    base = []
    for s in a.sel:
        if s[0] == 'fix': base.append(('fix', s[1]))
        else:
            q = sels[s[1]]
            if q[0] == 'fix': base.append(('fix', T.add(s[2], q[1])))
            elif q[0] == 'rng': base.append(('rng', T.add(s[2], q[1]), q[2], s[1]))
            else: base.append((q[0],))
    for j, b in enumerate(base):
        if b[0] != 'rng': continue
        st = S.sub(b[1]); ln = S.sub(b[2])
        if S.has(st) or S.has(ln) or k in ln.fv: continue
        r = T.linear_in(st, k)
        if r is None or not r[0].t: continue
        if not T.is_zero(T.sub(r[0], ln)): continue
        t = T.sub(ix[j], r[1])
        ks = T.mk_div(t, ln)
        guard = T.mul(T.mk_ge0(t), T.mk_lt(T.sub(t, T.mul(n, ln))))
        rm = T.sub(t, T.mul(ks, ln))
        # view index of the written element
        vi = [ZERO] * len(a.shape)
        for jj, (s, bb) in enumerate(zip(a.sel, base)):
            if s[0] == 'fix': guard = T.mul(guard, T.mk_eq(T.sub(ix[jj], s[1]))); continue
            v = s[1]
            if jj == j: vi[v] = T.add(rm, sels[v][1] if False else T.sub(S.sub(b[1]), s[2]))
            else: vi[v] = T.sub(ix[jj], s[2])
        # evaluate G/W at symbolic view index for the block axis: position rm inside the slice
        tvar = T.fresh('k'); CTX.varrange[tvar] = ln
        vq = a.sel[j][1]
        vi2 = list(vi); vi2[vq] = T.add(T.var(tvar), sels[vq][1])
        g = G(tuple(vi2)); w = W(tuple(vi2))
        return guard, ks, (g, w), {tvar: rm, k: ks}
    return None

def solve_array(it, S, l, shape, rd, ird, k, n, cells):
    ix = []; names = []
    for d in shape:
        t = T.fresh('k'); CTX.varrange[t] = d; names.append(t); ix.append(T.var(t))
    ix = tuple(ix)
    own = (l.app, l.appn)
    b = block_solution(it, S, l, cells, k, n, ix)
    if b is not None:
        guard, ks, (g, w), mp = b
        vals = [S.sub(g), S.sub(w[0]), S.sub(w[1])]
        if any(S.unresolved(x, own) for x in vals): return None
        if any(apps_in(x, {l.app, l.appn}) for x in vals):
            # reads of the array being written: only of the element being written
            raise Unsupported('block store reading the array')
        vals = [T.subst(x, mp) for x in vals]
        i0 = ird(ix)
        gg = T.mul(guard, vals[0])
        fv, fn = T.ite(gg, vals[1], i0[0]), T.ite(gg, vals[2], i0[1])
        return lambda: at_index(names, fv, fn)
    v, nn = rd(ix)
    v = S.sub(v); nn = S.sub(nn)
    if S.unresolved(v, own) or S.unresolved(nn, own): return None
    v = localise(v, own, ix); nn = localise(nn, own, ix)
    P = T.mk_app(l.app, list(ix)); Pn = T.mk_app(l.appn, list(ix), 'b')
    pa = the_atom(P); pn = the_atom(Pn)
    i0 = ird(ix)
    others = [a for a in apps_in(v, set(own)) | apps_in(nn, set(own)) if a is not pa and a is not pn]
    if others:
        # element ix is written only in the iteration t(ix); other elements with the same t are then read before anything is written to them
        dv = T.sub(v, P); dn = T.sub(nn, Pn); ks = unique_iteration((dv, dn), k, n)
        if ks is not None:
            g, t = ks; fv = g.fv | t.fv
            J = [j for j, nm in enumerate(names) if nm in fv]
            if all(a.args[1 + j] is ix[j] for a in others for j in J):
                sh = lambda p: T.subst(p, {k: t})
                def at(a):
                    if a.kind == 'app' and a.args[0] in own:
                        mp = dict(zip(names, [T.rebuild(x, {}, at) for x in a.args[1:]]))
                        return T.subst(i0[0] if a.args[0] == l.app else i0[1], mp)
                ev = T.rebuild(sh(dv), {}, at); en = T.rebuild(sh(dn), {}, at)
                fv_, fn_ = T.add(i0[0], T.mul(g, ev)), T.add(i0[1], T.mul(g, en))
                return lambda: at_index(names, fv_, fn_)
    for a in others:
            return chain_array(it, S, l, shape, ix, names, v, nn, pa, pn, i0, k, n)
    sh = lambda p, i: T.subst(p, {k: i})
    dv = T.sub(v, P); dn = T.sub(nn, Pn)
    if not dv.t and not dn.t: return lambda: at_index(names, i0[0], i0[1])
    # a store guarded by an equality that determines the iteration
    ks = unique_iteration((dv, dn), k, n) or unique_block((dv, dn), k, n)
    if ks is not None:
        g, t = ks
        mpa = {pa: i0[0], pn: i0[1]}
        ev = T.rebuild(sh(dv, t), {}, mpa); en = T.rebuild(sh(dn, t), {}, mpa)
        fv = T.add(i0[0], T.mul(g, ev)); fn = T.add(i0[1], T.mul(g, en))
        return lambda: at_index(names, fv, fn)
    if not contains_atom(v, pa) and not contains_atom(nn, pn) and not contains_atom(nn, pa) and not contains_atom(v, pn):
        def fin():
            if not k_at_least_one(it, n): return at_index(names, i0[0], i0[1])
            return at_index(names, sh(v, T.sub(n, ONE)), sh(nn, T.sub(n, ONE)))
        return fin
    r = coeff(v, pa)
    if r is not None and r[0] is ONE and not contains_atom(r[1], pa) and not contains_atom(r[1], pn):
        _, nf = solve_nan(it, nn, pn, i0[1], k, n)
        fv = T.add(i0[0], T.mk_sum([(k, n)], r[1]))
        def atk(args):
            j = T.fresh('k'); CTX.varrange[j] = T.var(k)
            mp = dict(zip(names, args))
            return T.add(T.subst(i0[0], mp), T.mk_sum([(j, T.var(k))], T.subst(r[1], dict(mp, **{k: T.var(j)}))))
        S.amaps[l.app] = atk
        return lambda: at_index(names, fv, nf())
    if r is not None and not contains_atom(r[1], pa):
        # guarded overwrite by the last matching iteration
        g = T.sub(ONE, r[0])
        if T.boolean(g):
            at, fin0 = solve_scalar(it, v, pa, i0[0], k, n, 'f')
            _, nf = solve_nan_guard(it, nn, pn, i0[1], k, n)
            return lambda: at_index(names, fin0(), nf())
    w = two_writers(dv, dn, k, n, pa, pn, i0)
    if w is not None: return lambda: at_index(names, *w)
    raise Unsupported('array recurrence %s' % T.pp(v)[:160])

def solve_nan_guard(it, V, at, init, k, n):
    try: return solve_nan(it, V, at, init, k, n)
    except Unsupported:
        return solve_scalar(it, V, at, init, k, n, 'b')

def the_atom(p): return list(list(p.t)[0])[0][0]

def localise(p, own, ix):
    """under a guard [ix_j == t] a read at t is a read at ix_j"""
    own = set(own)
    out = []
    for m, c in p.t.items():
        apps = [a for a, e in m if a.kind == 'app' and a.args[0] in own and tuple(a.args[1:]) != ix]
        eqs = [a.args[0] for a, e in m if a.kind == 'eq']
        if not apps or not eqs: out.append(T._mkpoly({m: c})); continue
        r = const(c)
        for a, e in m:
            if a in apps:
                args = list(a.args[1:])
                for j, (x, i) in enumerate(zip(args, ix)):
                    d = T.sub(x, i)
                    if d.t and any(d is q or T.neg(d) is q or T.ratio(d, q) is not None for q in eqs): args[j] = i
                r = T.mul(r, T.mk_pow(T.mk_app(a.args[0], args, a.sort), e))
            else: r = T.mul(r, T.norm_mono({a: e}))
        out.append(r)
    return T.psum(out)

def chain_array(it, S, l, shape, ix, names, v, nn, pa, pn, i0, k, n):
    """stores that read other elements: allowed when those elements are not written by earlier iterations"""
    raise Unsupported('array recurrence reads other elements')

def writer_keys(ps, k, n):
    """conditions that hold in at most one iteration: (the equality atoms, guard that there is such an iteration, value of a k-dependent term there)"""
    eqs = sorted({a for p in ps for m in p.t for a, e in m if a.kind == 'eq' and k in a.fv}, key=lambda x: x.skey)
    keys = []; kp = T.var(k); enum = {}
    for a in eqs:
        r = T._solve_eq(a.args[0], k, n)
        if r is not None and k not in r[1].fv and k not in r[0].fv:
            keys.append((frozenset([a]), r[0], lambda p, t=r[1]: T.subst(p, {k: t}), r[1])); continue
        for m, c in a.args[0].t.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: continue
            x = m[0][0]
            if x.kind == 'app' and x.args[0] in CTX.enumpairs and x.args[-1] is kp and not any(k in y.fv for y in x.args[1:-1]):
                t = T.scale(T.sub(a.args[0], T.scale(T.apoly(x), c)), -c)
                if k not in t.fv: enum.setdefault((tuple(x.args[1:-1]), CTX.enumpairs[x.args[0]]), []).append((a, x, t))
    for (pre, (KJ, KU, bj, bu, f)), l in enum.items():
        if n is not T.Sigma(bj, lambda j: T.Sigma(bu, lambda u: f(*(pre + (j, u))))): continue
        for a, x, t in l:
            for b, y, u in l:
                if x.args[0] != KJ or y.args[0] != KU: continue
                rng = T.ONE
                for z, bd in ((t, bj), (u, bu)):
                    if not CTX.decide_le(T.neg(z)): rng = T.mul(rng, T.mk_le(T.neg(z)))
                    rng = T.mul(rng, T.mk_lt(T.sub(z, bd)))
                keys.append((frozenset([a, b]), T.mul(rng, f(*(pre + (t, u)))), lambda p, x=x, y=y, t=t, u=u: T.rebuild(p, {}, {x: t, y: u}), None))
    return keys

def two_writers(dv, dn, k, n, pa, pn, i0):
    """every change of an element happens in one of two iterations, each determined by equalities"""
    monos = [({a for a, e in m}, m, c, w) for w, p in enumerate((dv, dn)) for m, c in p.t.items()]
    keys = writer_keys((dv, dn), k, n)
    for i, A in enumerate(keys):
        for B in keys[i + 1:]:
            if not all(A[0] <= at or B[0] <= at for at, *_ in monos): continue
            cur = lambda p, v: T.rebuild(p, {}, {pa: v[0], pn: v[1]})
            if A[3] is not None and B[3] is not None:
                step = lambda K, v: (T.add(v[0], cur(K[2](dv), v)), T.add(v[1], cur(K[2](dn), v)))
                gA, gB = A[1], B[1]; out = []
                a, b = step(A, i0), step(B, i0)
                ab, ba = step(B, a), step(A, b)
                lt, eq = T.mk_lt(T.sub(A[3], B[3])), T.mk_eq(T.sub(A[3], B[3]))
                for q in (0, 1):
                    both = T.ite(eq, a[q], T.ite(lt, ab[q], ba[q]))
                    out.append(T.simp(T.ite(gA, T.ite(gB, both, a[q]), T.ite(gB, b[q], i0[q]))))
                return out
            # the order of the two iterations is unknown: they must exclude each other
            ga = [x for x in monos if A[0] <= x[0]]; gb = [x for x in monos if B[0] <= x[0]]
            ok = True
            for at, m, c, w in ga:
                if B[0] <= at:
                    x = T._mkpoly({m: c})
                    if not all(T.is_zero(T.simp(T.mul(K[1], K[2](x)))) for K in (A, B)): ok = False
            if not ok: continue
            ga = [x for x in ga if not B[0] <= x[0]]; gb = [x for x in gb if not A[0] <= x[0]]
            sup = lambda g: T.norm_mono({a: 1 for a in set.intersection(*[x[0] for x in g]) if a.kind != 'app'})
            if not ga or not gb: continue
            sa = T.mul(A[1], A[2](sup(ga))); sb = T.mul(B[1], B[2](sup(gb)))
            if not T.is_zero(T.simp(T.mul(sa, sb))): continue
            out = []
            for q in (0, 1):
                d = lambda g, K: T.mul(K[1], cur(K[2](T.psum(T._mkpoly({m: c}) for _, m, c, w in g if w == q)), i0))
                out.append(T.add(i0[q], T.add(d(ga, A), d(gb, B))))
            return out
    return None

def unique_iteration(ps, k, n):
    """an equality on k that is a factor of every monomial"""
    cand = None
    for p in ps:
        for m in p.t:
            s = {a for a, e in m if a.kind == 'eq' and k in a.fv}
            cand = s if cand is None else cand & s
    for a in sorted(cand or (), key=lambda x: x.skey):
        r = T._solve_eq(a.args[0], k, n)
        if r is not None: return r
    return None

def unique_block(ps, k, n):
    """guards c*k <= i < c*k + c: only iteration i div c changes element i (checked for all earlier and later iterations)"""
    kp = T.var(k)
    for a in sorted({a for p in ps for m in p.t for a, e in m if a.kind == 'le' and k in a.fv}, key=lambda x: x.skey):
        p = a.args[0]
        c = T.psum(T._mkpoly({tuple(x for x in m if not (x[0].kind == 'var' and x[0].args[0] == k)): cc}) for m, cc in p.t.items() if any(x[0].kind == 'var' and x[0].args[0] == k and x[1] == 1 for x in m))
        if not c.t or k in c.fv: continue
        y = T.neg(T.sub(p, T.mul(c, kp)))
        if k in y.fv or len(y.t) != 1: continue
        (m, cc), = y.t.items()
        if cc != 1 or len(m) != 1 or m[0][0].kind != 'var' or m[0][1] != 1: continue
        if not CTX.decide_le(T.sub(ONE, c)): continue
        i = m[0][0].args[0]
        q, r, d = T.fresh('q'), T.fresh('r'), T.fresh('d')
        CTX.varrange[r] = c
        for x in (q, d): CTX.lower[x] = 0
        iv = T.add(T.mul(c, T.var(q)), T.var(r))
        ok = True
        for kk in (T.sub(T.sub(T.var(q), ONE), T.var(d)), T.add(T.add(T.var(q), ONE), T.var(d))):
            if not all(T.is_zero(T.subst(x, {i: iv, k: kk})) for x in ps): ok = False; break
        if ok:
            t = T.mk_div(T.var(i), c)
            return T.mk_lt(T.sub(t, n)), t
    return None

def at_index(names, fv, fn):
    def el(idx):
        mp = dict(zip(names, idx))
        return T.subst(fv, mp), T.subst(fn, mp)
    return el

# ------------------------------------------------------------------------------------------------ lists, dicts, records
def solve_list(it, S, l, c, k, n, results):
    paths = S.paths
    if l.mode == 'store':
        ix = T.fresh('k'); CTX.varrange[ix] = c.n
        def rd(idx):
            v = fold_paths(it, paths, lambda p: p.heap[l.key].elem(idx[0]))
            v = it.num(v); return v.val, v.nan
        def ird(idx):
            v = it.num(c.elem(idx[0])); return v.val, v.nan
        r = solve_array(it, S, l, (c.n,), rd, ird, k, n, None)
        if r is None: return False
        def install():
            el = r()
            it.write(l.key, ListCell(n=c.n, elem=lambda i: snum(*el((i,)), l.info), owner=c.owner), 'list item (loop)')
        results.append(install); return True
    if l.mode == 'items':
        raise Unsupported('stores into a short list in a symbolic loop')
    if l.mode == 'bagstore': return solve_bags(it, S, l, c, k, n, results)
    # growth
    grows = []
    for p in paths:
        pc = p.heap[l.key]
        if pc.base != l.key or pc.grow is None: raise Unsupported('list rebuilt in a loop')
        grows.append(pc.grow)
    g = T.psum(p.pc for p, gr in zip(paths, grows) if gr)
    g = S.sub(g)
    if S.unresolved(g): return False
    withg = [(p, gr) for p, gr in zip(paths, grows) if gr]
    if not withg: 
        return True
    if any(len(gr) != 1 for p, gr in withg) or any(gr[0][0] == 'many' for p, gr in withg):
        m = len(withg[0][1])
        if len(withg) == len(paths) and all(len(gr) == m and all(x[0] == 'one' for x in gr) for p, gr in withg):
            vals = [fold_paths(it, paths, lambda p, q=q: p.heap[l.key].grow[q][1]) for q in range(m)]
            vals = [S.subv(v) for v in vals]
            def el(i):
                q = T.mk_div(i, const(m)); r = T.sub(i, T.mul(q, const(m)))
                return it.select_item([subst_value(it, v, {k: q}) for v in vals], r)
            results.append(lambda: put_list(it, l, c, Seq(T.mul(n, const(m)), el)))
            return True
        gens = []; asset = False
        for p, gr in withg:
            pcs = S.sub(p.pc)
            for x in gr:
                if x[0] == 'one': gens.append(([(k, n)], pcs, S.subv(x[1])))
                else:
                    asset = asset or it.np.set_tagged(x[1])
                    b = it.np.elems_of(it, x[1])
                    gens += [([(k, n)] + bs, T.mul(pcs, S.sub(g2)), S.subv(e)) for bs, g2, e in b.gens]
        # flat concatenation of sequences of constant length
        if len(withg) == 1 and len(paths) == 1 and len(withg[0][1]) == 1 and isinstance(withg[0][1][0][1], Seq):
            sq = withg[0][1][0][1]
            m = S.sub(sq.n)
            if k not in m.fv and not S.has(m):
                j = T.fresh('k'); CTX.varrange[j] = m
                v = S.subv(sq.elem(T.var(j)))
                def el(i):
                    q = T.mk_div(i, m); r = T.sub(i, T.mul(q, m))
                    return subst_value(it, v, {k: q, j: r})
                results.append(lambda: put_list(it, l, c, Seq(T.mul(n, m), el)))
                return True
        def install():
            pre = it.np.to_bag(it, list(c.items)) if c.items is not None else it.np.to_bag(it, Seq(c.n, c.elem)) if c.n is not None else it.np.elems_of(it, c.bag)
            b = Bag(pre.gens + gens)
            if asset or it.np.set_tagged(c.bag):
                it.write(l.key, ListCell(bag=('elems', b), owner=c.owner), 'append (loop)'); return
            # one sequence per iteration, nothing before: the elements come in the order (iteration, position)
            b.ordered = not pre.gens and len(withg) == 1 and len(withg[0][1]) == 1 and len(gens) == 1 and withg[0][1][0][0] == 'many' and isinstance(withg[0][1][0][1], Seq)
            it.write(l.key, ListCell(bag=b, owner=c.owner), 'append (loop)')
        results.append(install); return True
    def get(p):
        gr = p.heap[l.key].grow
        return gr[0][1]
    wp = [p for p, gr in withg]
    r = get(wp[-1])
    if len(wp) > 1:
        for p in reversed(wp[:-1]): r = it.merge(S.sub(p.pc), get(p), r)
    v = S.subv(r)
    cond = lambda i: T.subst(g, {k: i})
    allc = len(withg) == len(paths) or T.simp(g) is ONE
    if allc: base = n; fv = familise(it, v, k, n)
    else:
        base = T.mk_cnt(n, cond)
        if isinstance(v, DRef) and not it.heap[v.cell].owner:
            cc = it.heap[v.cell]
            fam = it.alloc(FamCell(base, {q: (lambda i, x=x: subst_value(it, x, {k: T.mk_sel(n, cond, i)})) for q, x in cc.items.items()}, None, cc.rest))
            fv = lambda i: Rec(fam, i)
        else: fv = lambda i: subst_value(it, v, {k: T.mk_sel(n, cond, i)})
    results.append(lambda: put_list(it, l, c, Seq(base, fv)))
    return True

def put_list(it, l, c, seq):
    if c.base is not None:          # the list is itself growing in an outer loop
        it.write(l.key, ListCell(base=c.base, grow=c.grow + (('many', seq),), owner=c.owner), 'append (loop)'); return
    if c.bag is not None:
        it.write(l.key, ListCell(bag=Bag(c.bag.gens + it.np.to_bag(it, seq).gens), owner=c.owner), 'append (loop)'); return
    pre = list(c.items) if c.items is not None else Seq(c.n, c.elem)
    if isinstance(pre, list) and not pre:
        it.write(l.key, ListCell(n=seq.n, elem=seq.elem, owner=c.owner), 'append (loop)'); return
    r = it.np.concat_seq(it, pre, seq)
    cc = it.heap[r.cell]
    it.write(l.key, ListCell(n=cc.n, elem=cc.elem, items=cc.items, owner=c.owner), 'append (loop)')

def solve_bags(it, S, l, c, k, n, results):
    """for k: ls[c(k)] += values"""
    gens = []
    for p in S.paths:
        logs = [x for x in p.logs if x[0] == 'list' and x[1] == l.key]
        if not logs: continue
        if len(logs) != 1: raise Unsupported('several stores into a list of lists')
        _, _, pos, v = logs[0]
        if not isinstance(v, LRef): raise Unsupported('store into a list of lists')
        vc = p.heap.get(v.cell) or it.heap[v.cell]
        if vc.base is None or vc.base[0] != 'slot' or not T.is_zero(T.sub(vc.base[2], pos)): raise Unsupported('list slot overwritten')
        pc = S.sub(p.pc); pos = S.sub(pos)
        if S.unresolved(pc) or S.unresolved(pos): return False
        for x in vc.grow:
            if x[0] == 'one': gens.append((pos, [(k, n)], pc, S.subv(x[1])))
            else:
                b = it.np.to_bag(it, x[1])
                gens += [(pos, [(k, n)] + bs, T.mul(pc, S.sub(g2)), S.subv(e)) for bs, g2, e in b.gens]
    def el(i):
        e0 = c.elem(i)
        pre = it.np.seq_or_bag(it, e0)
        pre = it.np.to_bag(it, pre)
        return LRef(it.alloc(ListCell(bag=Bag(list(pre.gens) + [(bs, T.mul(g, T.mk_eq(T.sub(pos, i))), e) for pos, bs, g, e in gens]))))
    results.append(lambda: it.write(l.key, ListCell(n=c.n, elem=el, owner=c.owner), 'list slots (loop)'))
    return True

def solve_dict(it, S, l, c, k, n, results):
    paths = S.paths
    grows = [p.heap[l.key].grow for p in paths]
    if any(p.heap[l.key].items != c.items for p in paths): raise Unsupported('dict changed in a loop')
    if any(len(g) != 1 for g in grows): raise Unsupported('conditional or multiple dict stores in a loop')
    if c.items: raise Unsupported('dict with previous entries extended in a loop')
    kk = S.subv(fold_paths(it, paths, lambda p: p.heap[l.key].grow[0][0])); v = S.subv(fold_paths(it, paths, lambda p: p.heap[l.key].grow[0][1]))
    m = SymMap(it, n, lambda i: subst_value(it, kk, {k: i}), lambda i: subst_value(it, v, {k: i}))
    results.append(lambda: it.write(l.key, DictCell({}, None, None, c.owner, None, m), 'dict (loop)'))
    return True

def solve_fam(it, S, l, c, k, n, results):
    paths = S.paths
    fields = dict(c.fields); deleted = set(c.deleted)
    touched = {}
    for p in paths:
        for x in p.logs:
            if x[1] == l.key and x[0] in ('rec', 'recdel'): touched.setdefault(x[2], []).append((p, x))
    new = {}
    for name, xs in touched.items():
        if len({id(p) for p, x in xs}) != len(xs): 
            # several stores per path: keep the last one
            last = {}
            for p, x in xs: last[id(p)] = (p, x)
            xs = list(last.values())
        idx = S.sub(xs[0][1][3])
        if any(not T.is_zero(T.sub(S.sub(x[3]), idx)) for p, x in xs): raise Unsupported('records written at different positions')
        kinds = {x[0] for p, x in xs}
        if len(kinds) > 1: raise Unsupported('record field stored and deleted')
        t = T.fresh('k'); CTX.varrange[t] = c.n
        sol = T._solve_eq(T.sub(idx, T.var(t)), k, n)
        if sol is None: raise Unsupported('record position')
        guard = S.sub(T.psum(p.pc for p, x in xs)) if len(xs) < len(paths) else ONE
        gtot = T.mul(sol[0], T.subst(guard, {k: sol[1]}))
        if kinds == {'recdel'}:
            if gtot is not ONE: raise Unsupported('field deleted from some records only')
            new[name] = None; continue
        v = xs[-1][1][4]
        for p, x in reversed(xs[:-1]): v = it.merge(S.sub(p.pc), x[4], v)
        v = S.subv(v)
        old = c.fields.get(name)
        def get(i, v=v, sol=sol, gtot=gtot, old=old, t=t, name=name):
            g = T.subst(gtot, {t: i})
            w = lambda: subst_value(it, v, {k: T.subst(sol[1], {t: i})})
            if g is ONE: return w()
            if old is None: raise Unsupported('field %s set for some records only' % name)
            if not g.t: return old(i)
            return it.merge(g, w(), old(i))
        new[name] = get
    def install():
        f = dict(c.fields); dl = set(c.deleted)
        for name, g in new.items():
            if g is None: f.pop(name, None); dl.add(name)
            else: f[name] = g; dl.discard(name)
        it.write(l.key, FamCell(c.n, f, c.owner, c.rest, dl), 'record fields (loop)')
    results.append(install)
    return True

# ------------------------------------------------------------------------------------------------ search loops
def search_loop(it, node, seq, n, k, kv, paths, rets, brks, norm, locs, names, tnames):
    """loops that leave at the first element satisfying a condition and do nothing else before"""
    from .interp import ReturnEx
    exits = rets + brks
    S = Solver(it, node, n, k, paths, locs)
    c = T.psum(p.pc for p in exits)
    if S.has(c): raise Unsupported('early exit depends on the loop state')
    for p in norm:
        for l in locs.values():
            if l.kind == 'h': raise Unsupported('search loop with side effects')
            v = p.env.get(l.key)
            if l.ty is not None:
                if not (it.is_num(v) and it.num(v).val is scalar_ph(l)[0]): raise Unsupported('search loop with state')
            elif isinstance(l.init, Ref) and v == l.init: pass
            elif not isinstance(v, Undef) and v is not l.init: raise Unsupported('search loop with state')
    cond = lambda i: T.subst(c, {k: i})
    some = T.mk_le(T.sub(ONE, T.mk_cnt(n, cond)))
    if not it.branch(some):
        before = dict(it.frames[-1].env)
        for nm in names: 
            if nm in tnames and isinstance(node.target, ast.Name):
                def force(nm=nm):
                    v = T.mk_le(T.sub(ONE, n))
                    if v is not ONE and not it.branch(v):
                        if nm in before: return before[nm]
                        raise Unsupported('%s unbound when the loop is empty' % nm)
                    return seq.elem(T.sub(n, ONE))
                it.frames[-1].env[nm] = Lazy(force)
            elif ('n', nm) not in locs: it.frames[-1].env[nm] = Undef(nm)
        it.block(node.orelse); return
    ks = T.mk_sel(n, cond, ZERO)
    mp = {k: ks}
    for l in locs.values():
        if l.ty is not None: S.vmap[l.ph] = it.num(l.init).val; S.vmap[l.phn] = it.num(l.init).nan
    # which exit
    for i, p in enumerate(exits):
        last = i == len(exits) - 1
        if last or it.branch(T.subst(p.pc, mp)):
            CTX.assume(T.subst(c, mp))
            if p.kind == 'ret': raise ReturnEx(subst_value(it, S.subv(p.value), mp))
            for nm in names:
                v = p.env.get(nm)
                if v is None or isinstance(v, Undef): it.frames[-1].env[nm] = Undef(nm) if isinstance(v, Undef) else v
                else: it.frames[-1].env[nm] = subst_value(it, S.subv(v), mp)
            for hid, cell in p.heap.items():
                if hid in it.heap and it.heap[hid] is not cell and ('h', hid) in locs: raise Unsupported('search loop with side effects')
            return

def while_loop(it, node):
    from .interp import BreakEx, ContinueEx
    key = loop_key(it, node)
    if it.loop_queue: return contract_loop(it, node, None)
    for _ in range(64):
        t = it.truthp(it.ev(node.test))
        t = T.simp(t)
        if not t.t: break
        if t is not ONE: raise Unsupported('while loop with a symbolic condition and no loop contract')
        try: it.block(node.body)
        except BreakEx: return
        except ContinueEx: continue
    else: raise Unsupported('while loop without a contract')
    it.block(node.orelse)

def solver_like(node):
    """a counted loop with an early exit at its own level (not a search inside a nested function)"""
    return isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == 'range'
class LoopSpec:
    """contract of an iterative solver loop over ghost state.
    comps: name -> (shape, kind, init)   shape: tuple of polys (() scalar); init(*ix) -> poly or (poly, nan), or None
    step(g, n) -> dict name -> f(*ix)     g[name](*ix): ghost state before the iteration; n[name]: state after it (only components defined
                                          earlier in the order of the returned dict may be used)
    stop(g, n) -> 0/1 poly
    final state symbols: F_<name>"""
    def __init__(self, name, comps, step, stop, assume=None, tag='', nstop=None, optional=(), numeric=None):
        self.optional = set(optional) # components the program need not keep (e.g. an iteration counter used for messages only)
        self.numeric = numeric or {}  # components given by an assumed external function: name -> f(cur, new) -> array
        self.nstop = nstop            # numerically stable evaluation of stop: f(cur, new) -> (bool, margin)
        self.name = name; self.comps = comps; self.step = step; self.stop = stop; self.assume = assume; self.tag = tag
    def ghost(self, prefix):
        def acc(nm, k):
            if isinstance(k, tuple) and k[0] == 'const': return k[1]
            f = lambda *ix: T.mk_app(prefix + self.tag + nm, list(ix) or [ZERO], 'i' if k == 'i' else 'r')
            if isinstance(k, tuple) and k[0] == 'wrap': return lambda *ix: k[1](f(*ix), *ix)      # data invariant: the value is invariant under the wrapper
            return f
        return {nm: acc(nm, k) for nm, (sh, k, init) in self.comps.items()}
    def final(self): return self.ghost('F_')
    def flags(self):
        for nm, (sh, k, init) in self.comps.items():
            if k == 'nonneg':
                for pfx in ('G_', 'F_', 'N_'): CTX.appnonneg.add(pfx + self.tag + nm)
    def expand(self, p, st):
        """replace the N_ symbols by their definitions"""
        for nm in reversed(list(st)):
            key = 'N_' + self.tag + nm
            def amap(a, key=key, nm=nm):
                if a.kind == 'app' and a.args[0] == key:
                    args = a.args[1:] if self.comps[nm][0] else ()
                    return _val(st[nm](*args))[0]
                return None
            p = T.rebuild(p, {}, amap)
        return p
    # numeric iteration of the very same terms
    def iterate(self, env, maxit=100000):
        from . import evalv
        from .prove import bc
        g = self.ghost('G_'); N = self.ghost('N_'); st = self.step(g, N)
        gen = {}
        for nm in st:
            sh, k, init = self.comps[nm]
            names = [T.fresh('i') for _ in sh]
            for a, d in zip(names, sh): CTX.varrange[a] = d
            f = lambda h: (lambda r: r[0] if isinstance(r, tuple) else r)(h(*[T.var(a) for a in names]))
            gen[nm] = (names, f(init) if init is not None else None, f(st[nm]))
        stopp = self.stop(g, N)
        cur = {}; new = {}
        def ev(p, names, sh):
            e = evalv.Ev(env, {a: d for a, d in zip(names, sh)})
            return np_array(bc(e.poly(p), names, sh))
        shp = {nm: tuple(int(T.evalp(d, env)) for d in sh) for nm, (sh, k, init) in self.comps.items()}
        for nm, (names, i0, sp) in gen.items(): cur[nm] = ev(i0, names, shp[nm]) if i0 is not None else np_array(0.0 * _np.zeros(shp[nm]))
        def app(nm, d): return lambda *ix: float(d[nm][tuple(int(i) for i in ix)]) if shp[nm] else float(d[nm])
        for nm in cur:
            env.apps['G_' + self.tag + nm] = app(nm, cur); env.apps['N_' + self.tag + nm] = app(nm, new)
        for itn in range(maxit):
            for nm, (names, i0, sp) in gen.items(): new[nm] = np_array(self.numeric[nm](cur, new)) if nm in self.numeric else ev(sp, names, shp[nm])
            if self.nstop is not None:
                stopv, mg = self.nstop(cur, new)
                if mg < 0.02: raise T.EvalError('stopping decision depends on rounding')
            else: stopv = evalv.Ev(env).poly(stopp).a
            cur.update(new)
            if stopv >= 0.5: break
        else: raise T.EvalError('no convergence')
        fin = dict(cur)
        for nm in fin: env.apps['F_' + self.tag + nm] = app(nm, fin)
        return fin
import numpy as _np
def np_array(x): return _np.array(x, dtype=float)

def _val(r): return r if isinstance(r, tuple) else (r, ZERO)
class Cut:
    """cut rule: inside the body, a fresh array equal to the definition of a component is replaced by its N_ symbol"""
    def __init__(self, spec, st, N, pre, frame): self.spec = spec; self.st = st; self.N = N; self.pre = pre; self.frame = frame; self.done = set()
    def assigned(self, it, v):
        if not isinstance(v, ArrRef) or v.cell in self.pre: return
        cell = it.heap.get(v.cell)
        if cell is None or len(v.shape) != len(cell.shape) or not all(x[0] == 'ax' and x[2] is ZERO and x[1] == j for j, x in enumerate(v.sel)): return
        for c, comp in self.spec.comps.items():
            if c in self.done or not comp[0] or c not in self.st: continue
            if matches(it, v, comp, self.st[c]):
                self.done.add(c)
                N = self.N[c]; nan = self.st[c]
                it.heap[v.cell] = ArrCell(cell.shape, lambda ix: (N(*ix), _val(nan(*ix))[1]), cell.kind, cell.log, cell.owner)
                return
def matches(it, v, comp, f, expand=None):
    """value v is the ghost component described by f"""
    sh, kind, init = comp
    X = expand or (lambda p: p)
    if not sh:
        if not it.is_num(v) or isinstance(v, float) and v in (float('inf'), float('-inf')): return False
        x = it.num(v); a, n = _val(f())
        return T.is_zero(T.sub(X(x.nan), n)) and T.is_zero(T.mul(T.sub(X(x.val), a), T.bool_not(n)))
    if isinstance(v, ArrRef): shape, rd = v.shape, it.reader(v)
    elif isinstance(v, LRef) and len(sh) == 1:
        try: a = it.np.as_arr(it, v)
        except Exception: return False
        shape, rd = a[0], a[1]
    else: return False
    if len(shape) != len(sh): return False
    if any(not T.is_zero(T.sub(lift(p), q)) for p, q in zip(shape, sh)): return False
    ix = []
    for j, d in enumerate(sh):
        t = 'mi%d~%s' % (j, T.pp(d)); CTX.varrange[t] = d; ix.append(T.var(t))
    # values at the generic index are remembered per set of assumptions
    pc = CTX.version
    cache = it.__dict__.setdefault('match_cache', {})
    ks = (f, pc, tuple(sh))
    sp = cache.get(ks)
    if sp is None: sp = cache[ks] = _val(f(*ix))
    a, n = sp
    kv = (v.cell, it.heap.get(v.cell), v.sel, pc, 'v') if isinstance(v, ArrRef) else None
    try: pv = cache.get(kv) if kv else None
    except TypeError: kv = pv = None
    if pv is None:
        pv = rd(tuple(ix))
        if kv: cache[kv] = pv
    gv, gn = pv
    return T.is_zero(T.sub(X(gn), n)) and T.is_zero(T.mul(T.sub(X(gv), a), T.bool_not(n)))

def contract_loop(it, node, seq):
    from .interp import BreakEx, ContinueEx
    spec = it.loop_queue.pop(0)
    if callable(spec): spec = spec()
    fr = it.frames[-1]
    isfor = seq is not None
    if node.orelse: raise Unsupported('else clause of a solver loop')
    names = assigned_names(node.body) | touched_names(node.body)
    tnames = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))]) if isfor else set()
    retarget = bool(tnames & names); names -= tnames
    g = spec.ghost('G_'); F = spec.final()
    spec.flags()
    N = spec.ghost('N_')
    def obj(nm, acc):
        sh, k, init = spec.comps[nm]
        if not sh: return SNum(acc[nm](), ZERO, 'i' if k == 'i' else 'f')
        return it.new_arr(sh, lambda ix: (acc[nm](*ix), ZERO), 'f')
    # 1. entry
    cand = {}
    unbound = set()
    for nm in sorted(names):
        v = fr.env.get(nm)
        if v is None or isinstance(v, Undef): continue
        for c, comp in spec.comps.items():
            if comp[2] is not None and matches(it, v, comp, comp[2]): cand.setdefault(nm, []).append(c)
    hidden = None
    if isfor:
        for c, comp in spec.comps.items():
            if not comp[0] and comp[1] == 'i' and comp[2] is not None and _val(comp[2]())[0] is ZERO: hidden = c
        if hidden is None: raise Unsupported('for loop without a counter in the loop contract')
    else:
        if T.simp(it.truthp(it.ev(node.test))) is not ONE: raise Unsupported('the solver loop may not be entered')
    missing = [c for c, comp in spec.comps.items() if comp[2] is not None and c != hidden and c not in spec.optional and not any(c in l for l in cand.values())]
    if missing: raise Unsupported('loop contract %s: no variable holds the initial value of %s' % (spec.name, ', '.join(missing)))
    st = spec.step(g, N)
    for c, comp in spec.comps.items():
        if isinstance(comp[1], tuple) and comp[1][0] == 'wrap':
            ix = []
            for d in comp[0]:
                t = T.fresh('i'); CTX.varrange[t] = d; ix.append(T.var(t))
            for what, f in (('initial value', comp[2]), ('step', st[c])):
                if f is not None: it.loop_obls.append(('loop %s: data invariant of %s (%s)' % (spec.name, c, what), T.is_zero(T.sub(comp[1][1](_val(f(*ix))[0], *ix), _val(f(*ix))[0])), ''))
    def is_comp(v, c, deep=False):
        """v is component c of the state after the iteration"""
        comp = spec.comps[c]
        if not deep: return matches(it, v, comp, N[c]) or matches(it, v, comp, st[c])
        try: return matches(it, v, comp, lambda *ix: tuple(spec.expand(x, st) for x in _val(st[c](*ix))), expand=lambda p: spec.expand(p, st))
        except Unsupported: return False
    opq = {nm for nm in names if isinstance(fr.env.get(nm), Opaque)}
    # 2. arbitrary iteration; prune couplings until inductive
    for rnd in range(8):
        def setup():
            fr.env.update({nm: (Opaque(nm) if nm in opq else Undef('%s (not described by the loop contract)' % nm)) for nm in names})
            for nm, cs in cand.items():
                fr.env[nm] = obj(cs[0], g)
            if isfor:
                k = g[hidden]()
                it.assign(node.target, seq.elem(k))
        pre = dict(it.heap)
        info = []
        def run():
            kind = 'go'
            it.cut = Cut(spec, st, N, pre, fr)
            try:
                try: it.block(node.body)
                finally: it.cut = None
            except BreakEx: kind = 'exit'
            except ContinueEx: pass
            if kind == 'go' and not isfor:
                if not it.truth(it.ev(node.test)): kind = 'exit'
            if kind == 'go' and isfor:
                if it.branch(T.mk_le(T.sub(lift(seq.n), T.add(g[hidden](), ONE)))): kind = 'exit'
            sp = T.simp(spec.stop(g, N))
            if sp is not ONE and sp is not ZERO: sp = T.simp(spec.expand(sp, st))
            for i, c in it.heap.items():
                if i in pre and c is not pre[i]: raise Unsupported('the solver loop changes an object it did not create')
            m = {}
            for nm in names:
                v = fr.env.get(nm)
                if v is None or isinstance(v, Undef): continue
                m[nm] = {c for c in spec.comps if is_comp(v, c)}
            for c in spec.comps:
                # definitions that only agree after the intermediate components are unfolded
                if c == hidden or any(c in x for x in m.values()): continue
                for nm in m:
                    if not m[nm] and is_comp(fr.env[nm], c, True): m[nm].add(c)
            return (kind, sp, m)
        if isfor:
            if T.isconst(lift(seq.n)): CTX.facts.append(T.add(T.sub(g[hidden](), lift(seq.n)), ONE)); CTX.newversion()
        paths = explore_body(it, run, names, setup)
        bad = False
        for p in paths:
            if p.kind != 'norm': raise Unsupported('solver loop body leaves by %s' % p.kind)
            kind, sp, m = p.value
            for nm in list(cand):
                ok = [c for c in cand[nm] if c in m.get(nm, ())]
                if ok and ok[0] == cand[nm][0]: cand[nm] = ok; continue
                bad = True
                if ok: cand[nm] = ok
                else: del cand[nm]
        if not bad: break
    lost = [c for c, comp in spec.comps.items() if comp[2] is not None and c != hidden and c not in spec.optional and not any(c in l if isinstance(comp[1], tuple) and comp[1][0] == 'const' else l[0] == c for l in cand.values())]
    out = {}; consts = set()
    for nm in names:
        cs = None
        for p in paths:
            if p.value[0] != 'exit': continue
            m = p.value[2].get(nm, set())
            cs = m if cs is None else cs & m
        if cs: out[nm] = sorted(cs)[0]; consts |= {c for c in cs if isinstance(spec.comps[c][1], tuple) and spec.comps[c][1][0] == 'const'}
    got = set(out.values()) | consts | ({hidden} if hidden else set())
    for c in spec.comps:
        if c in spec.optional or c in spec.numeric: continue
        it.loop_obls.append(('loop %s: iteration computes %s' % (spec.name, c), c in got and c not in lost, ''))
    for p in paths:
        kind, sp, m = p.value
        it.loop_obls.append(('loop %s: %s' % (spec.name, 'leaves only when the stopping rule holds' if kind == 'exit' else 'continues only when the stopping rule fails'), sp is (ONE if kind == 'exit' else ZERO), T.pp(sp)[:200]))
    it.loopinfo.append(('contract', spec.name, len(paths), {k: v[0] for k, v in cand.items()}))
    for nm in names:
        fr.env[nm] = obj(out[nm], F) if nm in out else Undef('%s (not described by the loop contract)' % nm)
    if isfor:
        # the last iteration was number F - 1
        if retarget:
            for nm in tnames: fr.env[nm] = Undef(nm)
        else: it.assign(node.target, seq.elem(T.sub(F[hidden](), ONE)))
    if spec.assume:
        for b in spec.assume(F): CTX.assume(b)

def touched_names(stmts):
    """names whose object may be changed in place: x[...] = , x[...] += , x.append() ..."""
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)): b = b.value
                if isinstance(b, ast.Name): out.add(b.id)
    return out
