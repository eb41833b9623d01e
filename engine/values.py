"""Symbolic values of the interpreter. Mutable things live in a heap of immutable cells, so states can be snapshotted."""
from . import terms as T
from .terms import Poly, ZERO, ONE, const, lift, Unsupported

class SNum:
    """scalar; kind 'i' int, 'f' float, 'b' bool; nan: 0/1 polynomial (1 = not-a-number)"""
    __slots__ = ('val', 'nan', 'kind')
    def __init__(self, val, nan=ZERO, kind='f'):
        self.val = val; self.nan = nan; self.kind = kind
    def __repr__(self): return 'SNum(%s%s:%s)' % (T.pp(self.val), '' if self.nan is ZERO else ' nan=' + T.pp(self.nan), self.kind)

class Opaque:
    """a value the verifier knows nothing about (messages, time stamps); using it in a decision is unsupported"""
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what

class Undef:
    """poisoned location (value from an unknown earlier iteration / unbound)"""
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Undef(%s)' % self.what

class ArrRef:
    __slots__ = ('cell', 'sel', 'shape')
    def __init__(self, cell, sel, shape):
        self.cell = cell; self.sel = sel; self.shape = tuple(shape)
    def __repr__(self): return 'Arr#%s%s' % (self.cell, [T.pp(s) for s in self.shape])
class ArrCell:
    __slots__ = ('shape', 'elem', 'kind', 'log', 'owner', 'memo')
    def __init__(self, shape, elem, kind='f', log=None, owner=None):
        self.shape = tuple(lift(s) for s in shape); self.kind = kind; self.log = log; self.owner = owner
        self.memo = {}
        self.elem = self._wrap(elem)
    def _wrap(self, f):
        memo = self.memo
        def g(idx):
            key = (T.CTX.version, idx)
            r = memo.get(key)
            if r is None:
                r = f(idx)
                memo[key] = r
            return r
        return g

class Ref:
    __slots__ = ('cell',)
    def __init__(self, cell): self.cell = cell
    def __repr__(self): return '%s#%s' % (self.__class__.__name__, self.cell)
    def __eq__(self, o): return self.__class__ is o.__class__ and self.cell == o.cell
    def __hash__(self): return hash(self.cell)
class LRef(Ref): pass     # list
class DRef(Ref): pass     # dict
class ORef(Ref): pass     # instance
class SetRef(Ref): pass

DERIVED = set()
def derive(f):
    """elements of a sequence of symbolic length (fields of a record family) are made on access: writing into them afterwards would be lost, so their cells are remembered and writes refused"""
    if f is None or getattr(f, 'derives', False): return f
    def g(*a):
        v = f(*a)
        if isinstance(v, (LRef, DRef, ArrRef)): DERIVED.add(v.cell)
        return v
    g.derives = True
    return g
class ListCell:
    """items: tuple (concrete length) or n/elem (symbolic); grow: tuple of appended values on top of a placeholder"""
    __slots__ = ('items', 'n', 'elem', 'base', 'grow', 'owner', 'bag')
    def __init__(self, items=None, n=None, elem=None, base=None, grow=None, owner=None, bag=None):
        self.items = items; self.n = n; self.elem = derive(elem); self.base = base; self.grow = grow; self.owner = owner; self.bag = bag
class DictCell:
    __slots__ = ('items', 'base', 'grow', 'owner', 'rest', 'symmap')
    def __init__(self, items=None, base=None, grow=None, owner=None, rest=None, symmap=None):
        self.symmap = symmap
        self.items = dict(items or {}); self.base = base; self.grow = grow; self.owner = owner
        self.rest = rest       # tag of unknown further entries
class ObjCell:
    __slots__ = ('cls', 'attrs', 'owner', 'over')
    def __init__(self, cls, attrs, owner=None, over=None):
        self.cls = cls; self.attrs = dict(attrs); self.owner = owner; self.over = over or {}

class Seq:
    """immutable sequence of symbolic length"""
    __slots__ = ('n', 'elem', 'kind')
    def __init__(self, n, elem, kind='seq'):
        self.n = lift(n); self.elem = derive(elem); self.kind = kind
    def __repr__(self): return 'Seq[%s]' % T.pp(self.n)

class Spread:
    """*sequence of symbolic length, as arguments of zip"""
    def __init__(self, seq): self.seq = seq

class Bag:
    """unordered collection: list of generators (binders [(v,n)], guard poly, SNum element)"""
    def __init__(self, gens): self.gens = list(gens)

class Rec:
    """element idx of a family of records (a list of dictionaries with the same fields)"""
    __slots__ = ('fam', 'idx')
    def __init__(self, fam, idx): self.fam = fam; self.idx = idx
    def __repr__(self): return 'Rec(%s,%s)' % (self.fam, T.pp(self.idx))
class FamCell:
    """family of records: field -> function(idx) -> value ; rest: tag for the untouched remaining fields"""
    __slots__ = ('n', 'fields', 'owner', 'rest', 'deleted')
    def __init__(self, n, fields, owner=None, rest=None, deleted=()):
        self.n = n; self.fields = dict(fields); self.owner = owner; self.rest = rest; self.deleted = frozenset(deleted)

class Union_:
    """value with symbolic type: alternatives [(cond poly, tag, value)] mutually exclusive"""
    def __init__(self, alts): self.alts = alts

class Func:
    """interpreted closure (lambda / nested def)"""
    def __init__(self, node, env, interp_globals, name, defaults=(), kwdefaults=None, cls=None):
        self.node = node; self.env = env; self.globals = interp_globals; self.name = name
        self.defaults = defaults; self.kwdefaults = kwdefaults or {}; self.cls = cls
class BoundMethod:
    def __init__(self, func, self_): self.func = func; self.self_ = self_
class Model:
    """callable implemented by the engine"""
    def __init__(self, f, name=''): self.f = f; self.name = name
class SuperObj:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj
class Partial:
    def __init__(self, f, args, kwargs): self.f = f; self.args = args; self.kwargs = kwargs

def snum(val, nan=ZERO, kind='f'):
    val = lift(val)
    if nan is ZERO and kind in ('i', 'b') and T.isconst(val):
        c = T.cval(val)
        if c.denominator == 1: return bool(c) if kind == 'b' else int(c)
    return SNum(val, nan, kind)
