"""Symbolic execution of the real Python source (AST) -- the verification-condition generator."""
import ast, builtins, functools, inspect, operator, os, types
from . import terms as T
from .terms import Poly, ZERO, ONE, const, lift, Unsupported, CTX
from .values import *

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Infeasible(Exception): pass
class RaiseEx(Exception):
    """an exception raised by the interpreted program"""
    def __init__(self, etype, msg=''): self.etype = etype; self.msg = msg
    def __str__(self): return '%s(%s)' % (getattr(self.etype, '__name__', self.etype), self.msg)

class Outcome:
    def __init__(self, kind, value=None, state=None): self.kind = kind; self.value = value; self.state = state

class ExplState:
    def __init__(self, trail): self.trail = list(trail); self.pos = 0; self.alts = []; self.pc = ONE; self.conds = []

_ast_cache = {}
def module_ast(filename):
    if filename not in _ast_cache:
        with open(filename, encoding='utf-8') as f: src = f.read()
        tree = ast.parse(src, filename)
        idx = {}
        def visit(node, cls):
            for ch in ast.iter_child_nodes(node):
                c2 = cls
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    idx[(ch.name, line)] = ch
                    idx[(ch.name, ch.lineno)] = ch
                elif isinstance(ch, ast.Lambda):
                    idx.setdefault(('<lambda>', ch.lineno), ch)
                visit(ch, c2)
        visit(tree, None)
        _ast_cache[filename] = idx
    return _ast_cache[filename]

def func_node(f):
    c = f.__code__
    idx = module_ast(c.co_filename)
    n = idx.get((c.co_name, c.co_firstlineno))
    if n is None: raise Unsupported('source of %s not found' % f.__qualname__)
    return n

class Frame:
    def __init__(self, env, globs, closure, func, self_=None, cls=None):
        self.env = env; self.globals = globs; self.closure = closure; self.func = func; self.self_ = self_; self.cls = cls
        self.globals_decl = set()

class Interp:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.heap = {}; DERIVED.clear()
        self.nextid = 1; self.views = {}
        self.expl = []
        self.contracts = {}          # native function -> handler(interp, args, kwargs)
        self.loop_queue = []; self.cut = None         # contracts of solver loops, in the order the loops are met
        self.frames = []
        self.frame_violations = []   # writes to caller-owned objects
        self.used_contracts = set()
        self.inlined = set()
        self.side = []               # side obligations (text, proved)
        self.loop_obls = []          # obligations from loop contracts
        self.assumptions = set()
        self.max_paths = 200
        self.loopinfo = []
        self.elem_of = {}; self.rec_logs = []           # stores into lists / records inside the innermost loop body being analysed
        self.depth = 0
        from . import npmodel, loops
        self.np = npmodel
        self.loops = loops
        self.models = npmodel.MODELS
        self.rng = self.new_arr((), lambda ix: (T.ZERO, T.ZERO), 'i')      # number of calls of the random generator
    # ------------------------------------------------------------------ heap
    def alloc(self, cell):
        i = self.nextid; self.nextid += 1
        self.heap[i] = cell
        return i
    def snapshot(self):
        f = self.frames[-1] if self.frames else None
        return (dict(self.heap), dict(f.env) if f else None)
    def restore(self, s):
        self.heap = dict(s[0])
        if s[1] is not None:
            env = self.frames[-1].env
            env.clear(); env.update(s[1])
    def new_arr(self, shape, elem, kind='f', owner=None):
        c = ArrCell(shape, elem, kind, owner=owner)
        return ArrRef(self.alloc(c), tuple(('ax', j, ZERO) for j in range(len(c.shape))), c.shape)
    def new_list(self, items): return LRef(self.alloc(ListCell(items=tuple(items))))
    def new_symlist(self, n, elem, owner=None):
        n = lift(n)
        if T.isconst(n) and T.cval(n) <= 16: return self.new_list([elem(const(i)) for i in range(int(T.cval(n)))])
        return LRef(self.alloc(ListCell(n=n, elem=elem, owner=owner)))
    def new_dict(self, items=(), owner=None): return DRef(self.alloc(DictCell(dict(items), owner=owner)))
    def write(self, ref, cell, what=''):
        old = self.heap.get(ref)
        if old is not None and getattr(old, 'owner', None):
            self.frame_violations.append((old.owner, what))
        slot = isinstance(old, ListCell) and isinstance(old.base, tuple) and old.base and old.base[0] == 'slot'
        part = self.elem_of.get(ref) if ref in DERIVED and not slot and not getattr(old, 'owner', None) and self.rec_logs else None
        if part is None and ref in DERIVED and not slot and not getattr(old, 'owner', None): raise Unsupported('write into an element of a sequence of symbolic length')
        self.heap[ref] = cell
        if part is not None: self.np.setitem(self, LRef(part[0]), (snum(part[1], kind='i'),), LRef(ref))       # first sight of the write inside a loop
        if slot: self.np.setitem(self, LRef(old.base[1]), (snum(old.base[2], kind='i'),), LRef(ref))
        o = self.views.get(ref)
        if o is not None and isinstance(cell, DictCell):         # obj.__dict__ and the object are one
            oc = self.heap[o]
            if cell.base is not None or cell.rest or cell.symmap is not None: raise Unsupported('symbolic __dict__')
            self.heap[o] = ObjCell(oc.cls, cell.items, oc.owner, oc.over)
    # ------------------------------------------------------------------ branching
    def branch(self, cond):
        cond = T.simp(lift(cond))
        if cond is ONE: return True
        if not cond.t: return False
        if not self.expl: raise Unsupported('branch outside exploration')
        st = self.expl[-1]
        if st.pos < len(st.trail): d = st.trail[st.pos]
        else:
            d = True
            st.alts.append(st.trail[:st.pos] + [False])
            st.trail.append(True)
        st.pos += 1
        c = cond if d else T.bool_not(cond)
        st.pc = T.mul(st.pc, c)
        st.conds.append(c)
        if not st.pc.t: raise Infeasible()
        if not CTX.assume(c): raise Infeasible()
        return d
    def explore(self, run, limit=None):
        limit = limit or self.max_paths
        todo = [[]]; res = []
        while todo:
            trail = todo.pop()
            mk = CTX.mark()
            st = ExplState(trail)
            self.expl.append(st)
            try:
                try: out = run()
                except Infeasible: out = None
                if out is not None: out.facts = CTX.mark() if False else None
            finally:
                self.expl.pop()
                CTX.reset(mk)
            todo.extend(st.alts)
            if out is not None: res.append((st.pc, out, st))
            if len(res) + len(todo) > limit: raise Unsupported('too many paths')
        return res
    # ------------------------------------------------------------------ conversion
    def num(self, v):
        """to SNum"""
        if isinstance(v, SNum): return v
        if isinstance(v, bool): return SNum(const(int(v)), ZERO, 'b')
        if isinstance(v, int): return SNum(const(v), ZERO, 'i')
        if isinstance(v, float):
            if v != v: return SNum(ZERO, ONE, 'f')
            if v in (float('inf'), float('-inf')): raise Unsupported('infinite constant')
            return SNum(const(v), ZERO, 'f')
        import numpy as np
        if isinstance(v, (np.floating, np.integer, np.bool_)): return self.num(v.item())
        if isinstance(v, ArrRef) and len(v.shape) == 0:
            val, nan = self.reader(v)(())
            return SNum(val, nan, self.heap[v.cell].kind)
        if isinstance(v, Union_): raise Unsupported('value of unresolved type')
        raise Unsupported('not a number: %r' % (v,))
    def is_num(self, v):
        import numpy as np
        return isinstance(v, (SNum, int, float, bool, np.floating, np.integer, np.bool_)) or (isinstance(v, ArrRef) and len(v.shape) == 0)
    def idx(self, v):
        """integer polynomial"""
        v = self.num(v)
        if v.nan is not ZERO: raise Unsupported('nan index')
        return v.val
    def truthp(self, v):
        """0/1 polynomial for the truth value"""
        if isinstance(v, SNum):
            if v.kind == 'b': return v.val
            nz = T.bool_not(T.mk_eq(v.val))
            return T.bool_or(nz, v.nan)
        if isinstance(v, ArrRef):
            if len(v.shape) == 0: return self.truthp(self.num(v))
            raise Unsupported('truth value of an array')
        if isinstance(v, SetRef):
            items, bag = self.np.set_view(self, v)
            return T.bool_not(T.mk_eq(const(len(items)) if items is not None else self.np.bag_count(bag)))
        if isinstance(v, (LRef, DRef, Seq)):
            return T.bool_not(T.mk_eq(self.length(v)))
        if isinstance(v, (Opaque, Undef)): raise Unsupported('decision on %r' % v)
        if isinstance(v, (ORef, Rec, Func, BoundMethod)): return ONE
        if isinstance(v, Union_): raise Unsupported('truth of union')
        return ONE if v else ZERO
    def truth(self, v):
        if v is True or v is False or v is None: return bool(v)
        return self.branch(self.truthp(v))
    def length(self, v):
        if isinstance(v, LRef):
            c = self.heap[v.cell]
            if c.items is not None: return const(len(c.items))
            if c.n is not None: return c.n
            if c.bag is not None: return self.np.bag_count(c.bag)
            raise Unsupported('length of growing list')
        if isinstance(v, Seq): return v.n
        if isinstance(v, ArrRef):
            if not v.shape: raise RaiseEx(TypeError, 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, SetRef):
            items, bag = self.np.set_view(self, v)
            if items is None: raise Unsupported('iteration over a symbolic set')
            return list(items)
        if isinstance(v, DRef):
            c = self.heap[v.cell]
            if c.base is not None or c.rest or c.symmap: raise Unsupported('length of symbolic dict')
            return const(len(c.items))
        if isinstance(v, (tuple, list, str, dict, range, set)): return const(len(v))
        if hasattr(v, 'length'): return v.length(self)
        if self.is_num(v): raise RaiseEx(TypeError, 'len() of number')
        if isinstance(v, Union_): return self.length(self.resolve(v))
        raise Unsupported('len of %r' % (v,))
    def resolve(self, u):
        """decide the type of a union value by branching"""
        if not isinstance(u, Union_): return u
        for c, tag, v in u.alts[:-1]:
            if self.branch(c): return self.resolve(v() if callable(v) and not isinstance(v, (Func, Model)) else v)
        c, tag, v = u.alts[-1]
        return self.resolve(v() if callable(v) and not isinstance(v, (Func, Model)) else v)
    # ------------------------------------------------------------------ arrays
    def reader(self, a):
        """function(view index tuple of Poly) -> (val, nan), fixed to the current contents"""
        cell = self.heap[a.cell]
        sel = a.sel
        if all(s[0] == 'ax' and s[2] is ZERO and s[1] == j for j, s in enumerate(sel)) and len(a.shape) == len(sel):
            return cell.elem
        def f(idx):
            b = []
            for s in sel:
                if s[0] == 'fix': b.append(s[1])
                else: b.append(idx[s[1]] if s[2] is ZERO else T.add(idx[s[1]], s[2]))
            return cell.elem(tuple(b))
        return f
    def kind(self, a): return self.heap[a.cell].kind
    # ------------------------------------------------------------------ sequences
    def as_seq(self, v):
        """any iterable -> Seq or python list of values"""
        if isinstance(v, Seq): return v
        if isinstance(v, LRef):
            c = self.heap[v.cell]
            if c.items is not None: return list(c.items)
            if c.n is not None: return Seq(c.n, c.elem)
            if c.grow is not None: raise Unsupported('iteration over a list that is being built')
            raise Unsupported('iteration over unordered list')
        if isinstance(v, ArrRef):
            if not v.shape: raise RaiseEx(TypeError, 'iteration over a 0-d array')
            n = v.shape[0]
            if len(v.shape) == 1:
                rd = self.reader(v); kd = self.kind(v)
                el = lambda i: snum(*rd((i,)), kd)
            else: el = lambda i: self.np.getitem(self, v, (snum(i, kind='i'),))
            if T.isconst(n) and T.cval(n) <= 16: return [el(const(i)) for i in range(int(T.cval(n)))]
            return Seq(n, el)
        if isinstance(v, DRef):
            c = self.heap[v.cell]
            if c.base is not None or c.rest or c.symmap: raise Unsupported('iteration over symbolic dict')
            return list(c.items.keys())
        if isinstance(v, (list, tuple, range, str, dict, set, frozenset)): return list(v) if len(v) <= 100000 else v
        if isinstance(v, (map, filter, zip, enumerate, types.GeneratorType)) or hasattr(v, '__next__'): return list(v)
        if isinstance(v, type({}.keys())) or isinstance(v, type({}.items())) or isinstance(v, type({}.values())): return list(v)
        if hasattr(v, 'as_seq'): return v.as_seq(self)
        if isinstance(v, Union_): return self.as_seq(self.resolve(v))
        if self.is_num(v): raise RaiseEx(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))
    def nth(self, v, i):
        s = self.as_seq(v)
        i = lift(i)
        if isinstance(s, Seq): return s.elem(i)
        if T.isconst(i): return s[int(T.cval(i))]
        return self.select_item(s, i)
    def select_item(self, items, i):
        """symbolic index into a python list of values"""
        if all(self.is_num(x) for x in items) and items:
            r = self.num(items[-1])
            for j in range(len(items) - 2, -1, -1):
                r = self.merge(T.mk_eq(T.sub(i, const(j))), self.num(items[j]), r)
            return r
        raise Unsupported('symbolic index into heterogeneous list')
    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """value 'a if c else b'"""
        if c is ONE: return a
        if not c.t: return b
        if a is b: return a
        if self.is_num(a) and self.is_num(b):
            x = self.num(a); y = self.num(b)
            k = x.kind if x.kind == y.kind else ('f' if 'f' in (x.kind, y.kind) else 'i')
            return snum(T.ite(c, x.val, y.val), T.ite(c, x.nan, y.nan), k)
        if isinstance(a, ArrRef) and isinstance(b, ArrRef) and len(a.shape) == len(b.shape) and all(T.is_zero(T.sub(p, q)) for p, q in zip(a.shape, b.shape)):
            fa = self.reader(a); fb = self.reader(b)
            def el(idx):
                x = fa(idx); y = fb(idx)
                return T.ite(c, x[0], y[0]), T.ite(c, x[1], y[1])
            return self.new_arr(a.shape, el, self.kind(a) if self.kind(a) == self.kind(b) else 'f')
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        try:
            if type(a) is type(b) and a == b: return a
        except Exception: pass
        raise Unsupported('cannot merge %r and %r' % (a, b))
    # ------------------------------------------------------------------ calls
    def in_repo(self, f):
        try: fn = f.__code__.co_filename
        except AttributeError: return False
        return os.path.abspath(fn).startswith(self.repo + os.sep)
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Model): return f.f(self, *args, **kwargs)
        if isinstance(f, BoundMethod): return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs); kw.update(kwargs)
            return self.call(f.f, list(f.args) + args, kw)
        if isinstance(f, Func): return self.call_closure(f, args, kwargs)
        if self.contracts and type(f).__name__ == "_ArrayFunctionDispatcher" and f in self.contracts: return self.contracts[f](self, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords); kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw)
        if isinstance(f, types.MethodType):
            m2 = self.np.METHODS.get((type(f.__self__).__name__, f.__name__)) if not self.in_repo(f.__func__) else None
            if m2 is not None: return m2(self, f.__self__, *args, **kwargs)
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, (staticmethod, classmethod)): return self.call(f.__func__, args, kwargs)
        if isinstance(f, types.FunctionType):
            h = self.contracts.get(f)
            if h is not None:
                self.used_contracts.add(f.__module__ + '.' + f.__qualname__)
                return h(self, args, kwargs)
            if f in self.models: return self.models[f](self, *args, **kwargs)
            if self.in_repo(f):
                self.inlined.add(f.__module__ + '.' + f.__qualname__)
                return self.call_function(f, args, kwargs)
            return self.call_native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if type(f).__name__ == 'memoized' and hasattr(f, 'func'):
            return self.call(f.func, args, kwargs)
        return self.call_native(f, args, kwargs)
    def call_function(self, f, args, kwargs):
        node = func_node(f)
        clo = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try: clo[n] = c.cell_contents
                except ValueError: pass
        env = self.bind(node.args, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)
        fr = Frame(env, f.__globals__, [clo], f, args[0] if args else None, clo.get('__class__'))
        return self.run_body(node, fr)
    def call_closure(self, f, args, kwargs):
        env = self.bind(f.node.args, args, kwargs, f.defaults, f.kwdefaults, f.name)
        fr = Frame(env, f.globals, f.env, f, None, f.cls)
        return self.run_body(f.node, fr)
    def run_body(self, node, fr):
        self.depth += 1
        if self.depth > 60: self.depth -= 1; raise Unsupported('call depth')
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)): raise Unsupported('generator function')
            try: self.block(node.body)
            except ReturnEx as r: return r.v
            return None
        finally:
            self.frames.pop(); self.depth -= 1
    def bind(self, a, args, kwargs, defaults, kwdefaults, name):
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg: raise RaiseEx(TypeError, 'too many arguments for ' + name)
        for n, v in zip(pos, args): env[n] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(pos):])
        for n in pos[len(args):]:
            if n in kwargs: env[n] = kwargs.pop(n)
        nd = len(defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], defaults):
            if n not in env: env[n] = d
        for x in a.kwonlyargs:
            if x.arg in kwargs: env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults: env[x.arg] = kwdefaults[x.arg]
            else: raise RaiseEx(TypeError, 'missing ' + x.arg)
        for n in list(kwargs):
            if n in pos and n in env: raise RaiseEx(TypeError, 'multiple values for ' + n)
        if a.kwarg: env[a.kwarg.arg] = self.new_dict(kwargs)
        elif kwargs: raise RaiseEx(TypeError, 'unexpected keyword %s for %s' % (list(kwargs)[0], name))
        for n in pos:
            if n not in env: raise RaiseEx(TypeError, 'missing argument %s of %s' % (n, name))
        return env
    def instantiate(self, cls, args, kwargs):
        if cls in self.models: return self.models[cls](self, *args, **kwargs)
        mod = getattr(cls, '__module__', '')
        f = inspect.getattr_static(cls, '__init__', None)
        if isinstance(f, types.FunctionType) and (self.in_repo(f) or f in self.contracts):
            o = ORef(self.alloc(ObjCell(cls, {})))
            self.call(f, [o] + list(args), kwargs)
            return o
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return cls
        if type(cls) is type and cls.__flags__ & (1 << 9) and cls.__init__ is object.__init__ and cls.__new__ is object.__new__ and not args and not kwargs and cls.__mro__[1:] == (object,) and (not cls.__name__ or mod.startswith('sureal')):
            return ORef(self.alloc(ObjCell(cls, {})))           # plain object without fields
        return self.call_native(cls, args, kwargs)
    def call_native(self, f, args, kwargs):
        m = None
        try: m = self.models.get(f)
        except TypeError: pass
        if m is None:
            # methods of native objects modelled by (type, name)
            s = getattr(f, '__self__', None)
            nm = getattr(f, '__name__', None)
            if s is not None and not isinstance(s, types.ModuleType):
                m2 = self.np.METHODS.get((type(s).__name__, nm))
                if m2 is not None: return m2(self, s, *args, **kwargs)
        if m is not None: return m(self, *args, **kwargs)
        try:
            na = [self.native(a) for a in args]
            nk = {k: self.native(v) for k, v in kwargs.items()}
        except Unsupported as e:
            raise Unsupported('call of %s with symbolic arguments (%s)' % (getattr(f, '__name__', f), e))
        if not self.np.safe_native(f): raise Unsupported('native call %s' % getattr(f, '__name__', f))
        try: r = f(*na, **nk)
        except Exception as e: raise RaiseEx(type(e), str(e))
        return self.from_native(r)
    def native(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, slice)): return v
        if isinstance(v, tuple): return tuple(self.native(x) for x in v)
        if isinstance(v, list): return [self.native(x) for x in v]
        if isinstance(v, SNum):
            if T.isconst(v.val) and v.nan is ZERO:
                c = T.cval(v.val)
                return bool(c) if v.kind == 'b' else int(c) if v.kind == 'i' else float(c)
            if v.nan is ONE: return float('nan')
            if not v.val.fv and v.nan is ZERO:
                try: return float(T.evalp(v.val, T.Env({}, {})))
                except T.EvalError: pass
            raise Unsupported('symbolic number')
        if isinstance(v, LRef):
            c = self.heap[v.cell]
            if c.items is None: raise Unsupported('symbolic list')
            return [self.native(x) for x in c.items]
        if isinstance(v, DRef):
            c = self.heap[v.cell]
            if c.base is not None or c.rest or c.symmap: raise Unsupported('symbolic dict')
            return {k: self.native(x) for k, x in c.items.items()}
        if isinstance(v, (ArrRef, Seq, ORef, Rec, Opaque, Undef, Func, BoundMethod, Union_, Bag, SuperObj, Model, Partial)) or hasattr(type(v), 'sym_subst'): raise Unsupported('symbolic value %r' % (v,))
        return v
    def from_native(self, r):
        import numpy as np
        if isinstance(r, list): return self.new_list([self.from_native(x) for x in r])
        if isinstance(r, tuple): return tuple(self.from_native(x) for x in r)
        if isinstance(r, dict): return self.new_dict({k: self.from_native(v) for k, v in r.items()})
        if isinstance(r, np.ndarray): return self.np.const_array(self, r)
        if isinstance(r, (np.floating, np.integer, np.bool_)): return r.item()
        return r
    # ------------------------------------------------------------------ names and attributes
    def lookup(self, name):
        f = self.frames[-1]
        if name in f.env: 
            v = f.env[name]
            if isinstance(v, self.loops.Lazy): v = f.env[name] = v.force()
            if isinstance(v, Undef): raise Unsupported('use of %r' % v)
            return v
        for c in f.closure:
            if name in c:
                v = c[name]
                if isinstance(v, self.loops.Lazy): v = c[name] = v.force()
                if isinstance(v, Undef): raise Unsupported('use of %r' % v)
                return v
        if name in f.globals: return f.globals[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise RaiseEx(NameError, name)
    def getattr(self, o, name):
        if isinstance(o, ArrRef): return self.np.arr_attr(self, o, name)
        if isinstance(o, (LRef, DRef, Rec, Seq, SetRef)): return self.np.container_attr(self, o, name)
        if isinstance(o, SNum): return self.np.num_attr(self, o, name)
        if isinstance(o, Union_): return self.getattr(self.resolve(o), name)
        if isinstance(o, SuperObj): return self.super_attr(o, name)
        if isinstance(o, ORef):
            c = self.heap[o.cell]
            if name in c.over:
                return c.over[name](self, o)
            if name == '__class__': return c.cls
            st = inspect.getattr_static(c.cls, name, None) if c.cls is not None else None
            if isinstance(st, property): return self.call(st.fget, [o])
            if name in c.attrs: return c.attrs[name]
            if name == '__dict__':
                d = DRef(self.alloc(DictCell(c.attrs, owner=c.owner))); self.views[d.cell] = o.cell
                return d
            if st is not None: return self.bind_static(st, o, c.cls, name)
            raise RaiseEx(AttributeError, name)
        if isinstance(o, (Opaque,)): return Opaque(o.what + '.' + name)
        if isinstance(o, (Undef, Func, BoundMethod, Bag)): 
            if isinstance(o, Func) and name == '__name__': return o.name
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, (str,)) :
            return getattr(o, name)
        if hasattr(o, 'sym_attr'): return o.sym_attr(self, name)
        try: r = getattr(o, name)
        except AttributeError as e: raise RaiseEx(AttributeError, str(e))
        return r
    def bind_static(self, st, o, cls, name):
        if isinstance(st, staticmethod): return st.__func__
        if isinstance(st, classmethod): return BoundMethod(st.__func__, cls)
        if isinstance(st, types.FunctionType): return BoundMethod(st, o)
        if type(st).__name__ == 'memoized': return BoundMethod(st.func, o)
        if isinstance(st, property): return self.call(st.fget, [o])
        return st
    def super_attr(self, s, name):
        o = s.obj
        if isinstance(o, ORef):
            cls = self.heap[o.cell].cls
        elif isinstance(o, type): cls = o
        else: raise Unsupported('super of %r' % (o,))
        mro = cls.__mro__
        i = mro.index(s.cls) + 1
        for k in mro[i:]:
            if name in k.__dict__:
                st = k.__dict__[name]
                if isinstance(o, type):
                    if isinstance(st, classmethod): return BoundMethod(st.__func__, o)
                    if isinstance(st, staticmethod): return st.__func__
                    return st
                return self.bind_static(st, o, cls, name)
        if name == '__init__': return Model(lambda it, *a, **k: None)
        raise RaiseEx(AttributeError, name)
    def setattr(self, o, name, v):
        if isinstance(o, ORef):
            c = self.heap[o.cell]
            a = dict(c.attrs); a[name] = v
            n = ObjCell(c.cls, a, c.owner, c.over)
            self.write(o.cell, n, 'attribute ' + name)
            for d, oc in self.views.items():
                if oc == o.cell and d in self.heap: self.heap[d] = DictCell(a, owner=c.owner)
            return
        if isinstance(o, types.ModuleType) or isinstance(o, type): raise Unsupported('assignment to attribute of module/class')
        raise Unsupported('setattr on %r' % (o,))
    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts: self.stmt(s)
    def stmt(self, s):
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None: raise Unsupported('statement ' + s.__class__.__name__)
        try: return m(s)
        except Unsupported as e:
            if not hasattr(e, 'line'): e.line = getattr(s, 'lineno', None); e.args = (str(e) + ' [line %s in %s]' % (e.line, getattr(self.frames[-1].func, '__qualname__', getattr(self.frames[-1].func, 'name', '?'))),)
            raise
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Return(self, s): raise ReturnEx(self.ev(s.value) if s.value is not None else None)
    def s_Break(self, s): raise BreakEx()
    def s_Continue(self, s): raise ContinueEx()
    def s_Import(self, s):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]: mod = getattr(mod, part)
                self.frames[-1].env[a.asname] = mod
            else: self.frames[-1].env[a.name.split('.')[0]] = mod
    def s_ImportFrom(self, s):
        import importlib
        pkg = self.frames[-1].globals.get('__package__')
        mod = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for a in s.names: 
            try: v = getattr(mod, a.name)
            except AttributeError: v = importlib.import_module(mod.__name__ + '.' + a.name)
            self.frames[-1].env[a.asname or a.name] = v
    def s_Global(self, s): raise Unsupported('global statement')
    def s_Nonlocal(self, s): raise Unsupported('nonlocal statement')
    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list): f = self.call(self.ev(d), [f])
        self.frames[-1].env[s.name] = f
    def make_func(self, node, name):
        fr = self.frames[-1]
        d = tuple(self.ev(x) for x in node.args.defaults)
        kd = {a.arg: self.ev(x) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return Func(node, [fr.env] + list(fr.closure), fr.globals, name, d, kd, fr.cls)
    def s_ClassDef(self, s): raise Unsupported('local class')
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].env[t.id] = v
            if self.cut is not None and self.frames[-1] is self.cut.frame: self.cut.assigned(self, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.as_seq(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(s, Seq):
                if star: raise Unsupported('starred unpacking')
                if not T.isconst(s.n):
                    if not self.branch(T.mk_eq(T.sub(s.n, const(len(t.elts))))): raise RaiseEx(ValueError, 'unpack')
                    s = [s.elem(const(i)) for i in range(len(t.elts))]
                else: s = [s.elem(const(i)) for i in range(int(T.cval(s.n)))]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                if len(s) < len(t.elts) - 1: raise RaiseEx(ValueError, 'unpack')
                for x, y in zip(t.elts[:i], s[:i]): self.assign(x, y)
                self.assign(t.elts[i].value, self.new_list(s[i:len(s) - k]))
                for x, y in zip(t.elts[i + 1:], s[len(s) - k:]): self.assign(x, y)
                return
            if len(s) != len(t.elts): raise RaiseEx(ValueError, 'unpack')
            for x, y in zip(t.elts, s): self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.np.setitem(self, o, self.index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else: raise Unsupported('assignment target')
    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            v = self.ev(s.value)
            if isinstance(old, ArrRef) and len(old.shape) > 0:
                r = self.np.binop(self, s.op, old, v)
                self.np.setitem(self, old, (Ellipsis,), r)     # in place
                return
            if isinstance(old, LRef) and isinstance(s.op, ast.Add):
                self.np.list_extend(self, old, v); return
            self.frames[-1].env[t.id] = self.np.binop(self, s.op, old, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value); i = self.index(t.slice)
            old = self.np.getitem(self, o, i)
            v = self.ev(s.value)
            if isinstance(old, LRef) and isinstance(s.op, ast.Add):
                self.np.list_extend(self, old, v); return
            r = self.np.binop(self, s.op, old, v)
            self.np.setitem(self, o, i, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, self.np.binop(self, s.op, self.getattr(o, t.attr), self.ev(s.value)))
        else: raise Unsupported('augmented target')
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript): self.np.delitem(self, self.ev(t.value), self.index(t.slice))
            elif isinstance(t, ast.Name): self.frames[-1].env.pop(t.id, None)
            else: raise Unsupported('del')
    def s_If(self, s):
        if self.truth(self.ev(s.test)): self.block(s.body)
        else: self.block(s.orelse)
    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)): raise RaiseEx(AssertionError, 'line %d' % s.lineno)
    def s_Raise(self, s):
        if s.exc is None: raise RaiseEx(getattr(self, 'cur_exc', RuntimeError), 're-raise')
        e = s.exc
        if isinstance(e, ast.Call): t = self.ev(e.func)
        else: t = self.ev(e)
        raise RaiseEx(t if isinstance(t, type) else type(t), '')
    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except RaiseEx as r:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.ev(h.type)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(r.etype, type) and issubclass(r.etype, x) for x in ts)
                    if ok:
                        if h.name: self.frames[-1].env[h.name] = Opaque('exception')
                        self.cur_exc = r.etype
                        self.block(h.body)
                        break
                else: raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody: self.block(s.finalbody)
    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if hasattr(v, 'sym_enter'): v = v.sym_enter(self)
            elif type(v).__name__ == 'errstate' or isinstance(v, Opaque): pass
            else: raise Unsupported('with %r' % (v,))
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        self.block(s.body)
    def s_For(self, s):
        src = self.ev(s.iter)
        if isinstance(src, SetRef) and self.np.set_view(self, src)[0] is None:
            # the order in which a set is visited is unknown: only bodies without effects are summarised
            b = self.np.set_view(self, src)[1]
            if all(isinstance(x, (ast.Assert, ast.Pass, ast.Raise)) for x in s.body) and not s.orelse and len(b.gens) == 1 and len(b.gens[0][0]) == 1 and b.gens[0][1] is ONE:
                (((kv, n),), g, e), = b.gens
                src = Seq(n, lambda i: self.loops.subst_value(self, e, {kv: i}))
        it = self.as_seq(src)
        if isinstance(it, Seq) and T.isconst(T.simp(it.n)) and T.cval(T.simp(it.n)) <= 32:
            it = [it.elem(const(i)) for i in range(int(T.cval(T.simp(it.n))))]
        if isinstance(it, Seq) or len(it) > 200:
            if not isinstance(it, Seq):
                lst = it
                it = Seq(const(len(lst)), lambda i: lst[int(T.cval(i))] if T.isconst(i) else (snum(T.add(i, const(lst[0])), kind='i') if isinstance(lst, (range, list)) and all(lst[j] == lst[0] + j for j in (0, 1, len(lst) - 1)) and isinstance(lst[0], int) else None))
            return self.loops.for_loop(self, s, it)
        for x in it:
            self.assign(s.target, x)
            try: self.block(s.body)
            except BreakEx: break
            except ContinueEx: continue
        else: self.block(s.orelse)
    def s_While(self, s):
        return self.loops.while_loop(self, s)
    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None: raise Unsupported('expression ' + e.__class__.__name__)
        return m(e)
    def e_Constant(self, e): return e.value
    def e_Name(self, e): return self.lookup(e.id)
    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)
    def e_Tuple(self, e): return tuple(self.elts(e.elts))
    def e_List(self, e): return self.new_list(self.elts(e.elts))
    def elts(self, es, spread=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.ev(x.value))
                if isinstance(s, Seq) and spread: s = [Spread(s)]
                if isinstance(s, Seq): raise Unsupported('starred symbolic sequence')
                out += s
            else: out.append(self.ev(x))
        return out
    def e_Set(self, e): return self.np.make_set(self, self.elts(e.elts))
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                c = self.heap[o.cell] if isinstance(o, DRef) else None
                if c is None or c.base is not None or c.rest: raise Unsupported('dict unpacking')
                d.update(c.items)
            else: d[self.np.key(self, self.ev(k))] = self.ev(v)
        return self.new_dict(d)
    def e_BinOp(self, e): return self.np.binop(self, e.op, self.ev(e.left), self.ev(e.right))
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SNum) : return snum(T.bool_not(self.truthp(v)), kind='b')
            if isinstance(v, (LRef, DRef, Seq)): return snum(T.bool_not(self.truthp(v)), kind='b')
            return not self.truth(v)
        return self.np.unop(self, e.op, v)
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1: return v
            if isinstance(v, SNum) and v.kind == 'b':
                # try to stay symbolic when the rest is pure comparisons
                pass
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, SNum) else False
            if not isand and t: return v if not isinstance(v, SNum) else True
        return v
    def e_IfExp(self, e):
        t = self.truthp_safe(self.ev(e.test))
        if t is ONE: return self.ev(e.body)
        if not t.t: return self.ev(e.orelse)
        if self.branch(t): return self.ev(e.body)
        return self.ev(e.orelse)
    def truthp_safe(self, v): return T.simp(self.truthp(v))
    def e_Compare(self, e):
        left = self.ev(e.left); res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.np.compare(self, op, left, right)
            if res is None: res = c
            else:
                if isinstance(res, ArrRef) or isinstance(c, ArrRef): raise Unsupported('chained array comparison')
                res = snum(T.mul(self.truthp(res), self.truthp(c)), kind='b')
            if res is False: return False
            left = right
        return res
    def e_Call(self, e):
        # super() / locals
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in self.frames[-1].env:
            if e.args:
                a = [self.ev(x) for x in e.args]
                return SuperObj(a[0], a[1])
            fr = self.frames[-1]
            if fr.cls is None: raise Unsupported('super() outside class')
            return SuperObj(fr.cls, fr.self_)
        f = self.ev(e.func)
        args = self.elts(e.args, f is zip)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value)
                if isinstance(o, DRef):
                    c = self.heap[o.cell]
                    if c.base is not None or c.rest or c.symmap: raise Unsupported('** of symbolic dict')
                    items = c.items
                elif isinstance(o, dict): items = o
                else: raise Unsupported('** of %r' % (o,))
                for kk, v in items.items():
                    if kk in kw: raise RaiseEx(TypeError, 'multiple values for keyword ' + str(kk))
                    kw[kk] = v
            else:
                if k.arg in kw: raise RaiseEx(TypeError, 'multiple values for keyword ' + k.arg)
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)
    def index(self, sl):
        if isinstance(sl, ast.Tuple): return tuple(self.index1(x) for x in sl.elts)
        return (self.index1(sl),)
    def index1(self, x):
        if isinstance(x, ast.Slice):
            return slice(self.ev(x.lower) if x.lower else None, self.ev(x.upper) if x.upper else None, self.ev(x.step) if x.step else None)
        return self.ev(x)
    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.np.getitem(self, o, self.index(e.slice), single=not isinstance(e.slice, ast.Tuple))
    def e_Slice(self, e): return self.index1(e)
    def e_Lambda(self, e): return self.make_func(e, '<lambda>')
    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value)
                try:
                    n = self.native(x)
                    spec = ''
                    if v.format_spec is not None:
                        spec = self.ev(v.format_spec)
                    parts.append(format(str(n) if v.conversion == 115 else repr(n) if v.conversion == 114 else n, spec))
                except Unsupported:
                    t = self.np.names.to_str(x) if v.format_spec is None and v.conversion in (-1, 115) else None
                    if t is None: return Opaque('string')
                    parts.append(t)
        return self.np.names.joined(self, parts)
    def e_FormattedValue(self, e): raise Unsupported('formatted value')
    def e_ListComp(self, e): return self.loops.comprehension(self, e, 'list')
    def e_GeneratorExp(self, e): return self.loops.comprehension(self, e, 'gen')
    def e_SetComp(self, e): return self.loops.comprehension(self, e, 'set')
    def e_DictComp(self, e): return self.loops.comprehension(self, e, 'dict')
    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v
    def e_Starred(self, e): raise Unsupported('starred')
