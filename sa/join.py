"""Joining the branches of a conditional.

An `if` whose branches only compute values is not a reason to split the trace:
both sides are interpreted from the same state and their states are joined,
each differing scalar becoming a gated value (gamma node).  Where the states
cannot be joined (different object structure, an exception, a jump) the trace
is split instead."""
import ast
import numpy as np
from . import terms as T
from .terms import Term
from .values import *

MAXP = 8


MISSING = object()


class NoJoin(Exception):
    pass


_JUMP = (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.While, ast.For, ast.With, ast.Try,
         ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Delete, ast.Global, ast.Nonlocal, ast.Assert, ast.Match)
_CACHE = {}


def eligible(s):
    k = id(s)
    r = _CACHE.get(k)
    if r is None or r[0] is not s:
        n, ok = 0, True
        for q in list(s.body) + list(getattr(s, 'orelse', [])):
            for x in ast.walk(q):
                n += 1
                if isinstance(x, _JUMP):
                    ok = False
        r = (s, ok and n < 400)
        _CACHE[k] = r
    return r[1]


_PLAIN = (ast.Name, ast.Constant, ast.Attribute, ast.Compare, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.Call, ast.operator, ast.cmpop,
          ast.unaryop, ast.expr_context, ast.Subscript)
_PURE = {'isinstance', 'len', 'hasattr', 'callable', 'type', 'issubclass', 'abs'}


def plain(n):
    """An expression of names, attributes and side-effect free builtins only."""
    k = ('p', id(n))
    r = _CACHE.get(k)
    if r is None or r[0] is not n:
        ok = all(isinstance(x, _PLAIN) and (not isinstance(x, ast.Call) or isinstance(x.func, ast.Name) and x.func.id in _PURE and not x.keywords)
                 for x in ast.walk(n))
        r = _CACHE[k] = (n, ok)
    return r[1]


def attempt(I, node, thunk, expr=False):
    """Run thunk on joined branches.  (done, value)"""
    fails = I.join_fail
    if fails.get(node, 0) >= 3 or I.nojoin:
        return False, None
    base = I.heap
    nid0 = I.nid
    I.distinct += 1
    try:
        ps = I.explore(thunk, MAXP)
    except Unsupported:
        fails[node] = fails.get(node, 0) + 1
        return False, None
    finally:
        I.distinct -= 1
    if len(ps) == 1 and ps[0].kind == 'return' and not ps[0].guards:
        p = ps[0]
        I.heap, I.facts = p.heap, p.facts
        I.events.extend(p.events)
        I.modules = p.modules
        return True, p.value
    try:
        if not ps or any(p.kind != 'return' or any(e[0] not in ('npdiv', 'div') for e in p.events) or len(p.modules) != len(I.modules) for p in ps):
            raise NoJoin()
        J = _Join(I, base, ps, nid0)
        J.run()
        v = J.val([p.value for p in ps]) if expr else None
        J.close()
    except NoJoin:
        fails[node] = fails.get(node, 0) + 1
        return False, None
    I.heap = J.heap
    I.joins += 1
    for p in ps:
        I.events.extend(p.events)
    fails[node] = -1000
    return True, v


class _Join:
    def __init__(self, I, base, ps, nid0):
        self.I, self.base, self.ps, self.nid0 = I, base, ps, nid0
        self.gs = [p.guard for p in ps]
        self.heap = type(base)(base)
        if hasattr(base, 'reads'):
            self.heap.reads = base.reads
        for p in ps:
            for i, c in p.heap.items():
                if i not in base:
                    self.heap[i] = c
        self.memo = {}
        self.reach = {}
        self.news = []

    def close(self):
        I = self.I
        for i, c in self.news:
            self.heap[i] = c

    def alloc(self, cell):
        I = self.I
        I.nid += 1
        self.heap[I.nid] = cell
        return I.nid

    def run(self):
        for i, c in self.base.items():
            cs = [p.heap[i] for p in self.ps]
            if all(x is c for x in cs):
                continue
            self.heap[i] = self.cell(cs, c)

    def cell(self, cs, base=None):
        c0 = cs[0]
        if any(type(x) is not type(c0) for x in cs):
            raise NoJoin()
        if isinstance(c0, BufCell):
            if any(x.dtype != c0.dtype or len(x.data) != len(c0.data) for x in cs) or c0.dtype not in 'bifgO':
                raise NoJoin()
            r = c0.copy()
            for j in range(len(c0.data)):
                r.data[j] = self.val([x.data[j] for x in cs], True)
            return r
        if isinstance(c0, EnvCell):
            r = (base or c0).copy()
            names = set()
            for x in cs:
                names |= set(x.vars)
            vs = {}
            for n in names:
                xs = [x.vars.get(n, MISSING) for x in cs]
                if any(x is MISSING or type(x) is MaybeV for x in xs) and not all(x is xs[0] for x in xs):
                    cond, have = False, None
                    for g, x in zip(self.gs, xs):
                        if x is not MISSING:
                            m = type(x) is MaybeV
                            cond = T.or_(cond, T.and_(g, x.cond) if m else g)
                            have = x.value if m else x
                    xs = [have if x is MISSING else x.value if type(x) is MaybeV else x for x in xs]
                    vs[n] = MaybeV(cond, self.val(xs))
                else:
                    vs[n] = self.val(xs)
            r.vars = vs
            return r
        if isinstance(c0, ObjCell):
            if any(x.cls is not c0.cls or set(x.fields) != set(c0.fields) for x in cs):
                raise NoJoin()
            r = c0.copy()
            r.fields = {k: self.val([x.fields[k] for x in cs]) for k in c0.fields}
            return r
        if isinstance(c0, ListCell):
            if any(x.kind != c0.kind or not x.concrete for x in cs) or c0.kind not in ('list', 'deque'):
                raise NoJoin()
            its = [x.items for x in cs]
            if any(len(x) != len(its[0]) for x in its):
                raise NoJoin()
            r = c0.copy()
            r.segs = [Seg(items=[self.val(list(q)) for q in zip(*its)])]
            return r
        if isinstance(c0, DictCell):
            if any(list(x.d) != list(c0.d) for x in cs):
                raise NoJoin()
            r = c0.copy()
            r.d = {k: self.val([x.d[k] for x in cs]) for k in c0.d}
            return r
        raise NoJoin()

    def gamma(self, vs):
        sorts = {T.sort_of(v) for v in vs}
        if not sorts <= set('fib') or 'b' in sorts and len(sorts) > 1:
            raise NoJoin()
        if len(sorts) > 1:
            vs = [T.cast_f(v) for v in vs]
        r = vs[-1]
        for g, v in list(zip(self.gs, vs))[-2::-1]:
            r = T.ite(g, v, r)
        return r

    def val(self, vs, inbuf=False):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(type(v) is type(v0) for v in vs):
            if isinstance(v0, (int, float, str, bool, type(None))):
                if all(v == v0 for v in vs):
                    return v0
            elif isinstance(v0, (Ref, EnumV, DTypeV)) and all(v == v0 for v in vs):
                return v0
        num = lambda v: isinstance(v, (int, float)) or isinstance(v, Term) and v.sort in 'fib'
        if all(num(v) for v in vs):
            if not inbuf and all(not isinstance(v, (Term, float)) for v in vs):
                raise NoJoin()      # distinct literals steer control: keep the traces apart
            return self.gamma(vs)
        if all(isinstance(v, Arr) for v in vs):
            if all(v.buf == v0.buf and v.mem == v0.mem and v.zero == v0.zero and v.shape == v0.shape and (v.idx == v0.idx).all() for v in vs):
                return v0
            bs = [p.heap.get(v.buf) or self.heap[v.buf] for p, v in zip(self.ps, vs)]
            if any(v.shape != v0.shape or v.mem or v.zero != v0.zero for v in vs) or any(b.dtype != bs[0].dtype for b in bs) \
                    or bs[0].dtype not in 'bifg':
                raise NoJoin()
            if not (v0.ndim == 0 and not v0.zero) and any(v.buf <= self.nid0 for v in vs):
                raise NoJoin()
            key = tuple(v.buf for v in vs)
            if key in self.memo and v0.ndim:
                raise NoJoin()      # two names for one array
            self.memo[key] = True
            xs = [b.data[v.idx.reshape(-1)] for b, v in zip(bs, vs)]
            out = np.empty(v0.size, dtype=object)
            for j in range(v0.size):
                out[j] = self.gamma([x[j] for x in xs])
            i = self.alloc(BufCell(out, bs[0].dtype))
            return Arr(i, np.arange(v0.size).reshape(v0.shape), False, v0.zero)
        if all(isinstance(v, Ref) for v in vs):
            if any(v.id <= self.nid0 for v in vs):
                raise NoJoin()
            key = tuple(v.id for v in vs)
            if key in self.memo:
                return Ref(self.memo[key])
            i = self.alloc(None)
            self.memo[key] = i
            self.heap[i] = self.cell([p.heap.get(v.id) or self.heap[v.id] for p, v in zip(self.ps, vs)])
            return Ref(i)
        if all(type(v) is tuple and len(v) == len(v0) for v in vs):
            return tuple(self.val(list(q)) for q in zip(*vs))
        if all(type(v) is SelV for v in vs) and all(v.same(v0) for v in vs):
            return SelV(self.val([v.arr for v in vs]), v0.guard)
        if all(isinstance(v, BoundV) and v == v0 for v in vs):
            return v0
        raise NoJoin()
