"""Abstract interpreter for the Python subset celest is written in.

Every call into the repository is analysed from its AST.  Scalars are value
graph nodes (terms.py); arrays and lists have concrete extents and symbolic
elements.  Branches on unknown conditions split the trace; numeric loops whose
exit depends on unknown values are summarised by fixpoint nodes.
Nothing from the repository is imported or executed.
"""
import ast
import os
import time
import builtins as _pb
import numpy as np
from . import terms as T
from .terms import Term
from .values import *
from . import join

MAXPATHS = 6000


class RaiseEx(Exception):
    def __init__(self, value, site=None):
        self.value, self.site = value, site


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


class Path:
    def __init__(self, guards, kind, value, heap, events, site, facts):
        self.guards, self.kind, self.value, self.heap = guards, kind, value, heap
        self.events, self.site, self.facts = events, site, facts

    @property
    def guard(self):
        return T.and_(*self.guards)


class Site:
    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)


_OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Mod: 'mod',
        ast.FloorDiv: 'floordiv', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and',
        ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
_CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
_REFL = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


class HeapT(dict):
    """Heap that records which cells are read."""
    __slots__ = ('reads',)

    def __getitem__(self, k):
        self.reads.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.reads.add(k)
        return dict.get(self, k, d)


def hcopy(h):
    if type(h) is HeapT:
        c = HeapT(h)
        c.reads = h.reads
        return c
    return dict(h)


def _node(x):
    return x.id if isinstance(x, Term) else ('c', float(x))


def _reach(up, a, b):
    """None: no chain a <= ... <= b; otherwise whether some step is strict."""
    best = {a: False}
    todo = [a]
    while todo:
        x = todo.pop()
        for y, st in up.get(x, {}).items():
            s = best[x] or st
            if y not in best or s and not best[y]:
                best[y] = s
                todo.append(y)
    if a == b:
        return None
    return best.get(b)


class Interp:
    def __init__(self, root='/repo'):
        self.root = root
        self.heap = {}
        self.nid = 0
        self.nfresh = 0
        self.facts = {}
        self.guards = []
        self.events = []
        self.trail = []
        self.tpos = 0
        self.depth = 0
        self.modules = {}
        self.asts = {}
        self.rel = {}
        self.funcs_seen = set()
        self.calls_seen = 0
        self.files_seen = set()
        self.paths_total = 0
        self.loops_seen = set()
        self.site = None
        self.callstack = []
        self.cmbody = None
        self.steps, self.deadline = 0, None
        self.join_fail, self.nojoin, self.distinct, self.joins = {}, False, 0, 0
        self.minw, self.impure, self.rec = 1 << 60, 0, False
        self.memo, self.nomemo = {}, {}
        self.hooks = {}           # qualified name -> fn(interp, fv, args, kwargs)
        from . import libs, npmodel
        self.libs, self.np = libs, npmodel
        libs.init(self)

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        self.nid += 1
        self.heap[self.nid] = cell
        return Ref(self.nid)

    def cell(self, ref):
        return self.heap[ref.id]

    def wcell(self, id):
        if id < self.minw:
            self.minw = id
        c = self.heap[id].copy()
        self.heap[id] = c
        return c

    def fresh(self, prefix, sort='f', axes=()):
        self.nfresh += 1
        return T.sym('%s#%d' % (prefix, self.nfresh), sort, axes)

    def newlist(self, items, kind='list'):
        return self.alloc(ListCell([Seg(items=list(items))], kind))

    def newarr(self, data, shape, dtype, zero=False):
        flat = np.empty(len(data), dtype=object)
        for i, x in enumerate(data):
            flat[i] = x
        r = self.alloc(BufCell(flat, dtype))
        return Arr(r.id, np.arange(len(data)).reshape(shape), zero=zero)

    # ------------------------------------------------------------ branching
    def decide(self, c):
        c = T.tobool(c)
        if c is True or c is False:
            return c
        if c.op == 'not':
            return not self.decide(c.args[0])
        self.impure += 1
        v = self.known(c)
        if v is not None:
            return v
        if c.op == 'and':
            for x in c.args:
                if not self.decide(x):
                    return False
            return True
        if c.op == 'ite':
            if self.decide(c.args[0]):
                return self.decide(c.args[1])
            return self.decide(c.args[2])
        if c.op == 'lt':
            v = self.ordered(c.args[0], c.args[1])
            if v is not None:
                self.facts[c.id] = v
                return v
        elif c.op == 'eq' and (self.ordered(*c.args) or self.ordered(*c.args[::-1])):
            self.facts[c.id] = False
            return False
        if self.tpos < len(self.trail):
            v = self.trail[self.tpos][0]
        else:
            v = True
            self.trail.append([True, False])
        self.tpos += 1
        self.assume(c, v)
        return v

    def ordered(self, a, b):
        """a < b as it follows from the comparisons of this trace by transitivity (over terms that are never NaN)."""
        if not (T.plain(a) and T.plain(b)):
            return None
        up = {}
        for g in self.guards:
            neg = g.op == 'not'
            if neg:
                g = g.args[0]
            if g.op == 'eq':
                if not neg and T.plain(g.args[0]) and T.plain(g.args[1]):
                    x, y = [_node(z) for z in g.args]
                    up.setdefault(x, {}).setdefault(y, False)
                    up.setdefault(y, {}).setdefault(x, False)
                continue
            if g.op != 'lt' or not (T.plain(g.args[0]) and T.plain(g.args[1])):
                continue
            x, y = [_node(z) for z in g.args]
            if neg:
                up.setdefault(y, {}).setdefault(x, False)
            else:
                up.setdefault(x, {})[y] = True
        if not up:
            return None
        a, b = _node(a), _node(b)
        if _reach(up, a, b):
            return True
        if _reach(up, b, a) is not None:
            return False
        return None

    def choose(self, n):
        """A choice among n alternatives without a condition of its own."""
        for i in range(n - 1):
            if self.tpos < len(self.trail):
                v = self.trail[self.tpos][0]
            else:
                v = True
                self.trail.append([True, False])
            self.tpos += 1
            if v:
                return i
        return n - 1

    def known(self, c):
        if c.id in self.facts:
            return self.facts[c.id]
        if c.op == 'and':
            vs = [(not self.known(x.args[0]) if self.known(x.args[0]) is not None else None)
                  if isinstance(x, Term) and x.op == 'not' else self.known(x) for x in c.args]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        if c.op == 'lt':
            l1, h1, o1 = T.interval(c.args[0])
            l2, h2, o2 = T.interval(c.args[1])
            if h1 < l2 or (h1 == l2 and o1):
                return True
            if l1 >= h2:
                return False
        return None

    def assume(self, c, v=True):
        c = T.tobool(c)
        if c is True or c is False:
            if c != v:
                raise Infeasible()
            return
        while c.op == 'not':
            c, v = c.args[0], not v
        self.guards.append(c if v else T.not_(c))
        self._fact(c, v)

    def _fact(self, c, v):
        while isinstance(c, Term) and c.op == 'not':
            c, v = c.args[0], not v
        if not isinstance(c, Term):
            return
        self.facts[c.id] = v
        if c.op == 'and' and v:
            for x in c.args:
                self._fact(x, True)
        if c.op == 'eq' and v:
            for a, b in (c.args, c.args[::-1]):
                if T.isnum(b):
                    self.facts[T.mk('lt', (a, b), 'b').id] = False
                    self.facts[T.mk('lt', (b, a), 'b').id] = False
        if c.op == 'lt' and v:
            self.facts.setdefault(T.mk('lt', (c.args[1], c.args[0]), 'b').id, False)
            e = T.eq(c.args[0], c.args[1])
            if isinstance(e, Term):
                self.facts.setdefault(e.id, False)

    def explore(self, thunk, maxpaths=MAXPATHS):
        """All traces of thunk from the current state; the state is restored."""
        s = (self.heap, self.facts, self.guards, self.events, self.trail, self.tpos,
             self.nid, self.nfresh, self.callstack, self.site, self.cmbody, getattr(self, 'handling', []))
        out = []
        trail = []
        maxid, maxfresh = self.nid, self.nfresh
        mods = dict(self.modules)
        try:
            while True:
                self.modules = dict(mods)
                self.heap = hcopy(s[0])
                self.facts = dict(s[1])
                self.guards = []
                self.events = []
                self.trail, self.tpos = trail, 0
                self.nid, self.nfresh = (maxid, maxfresh) if self.distinct else (s[6], s[7])
                self.callstack = list(s[8])
                self.cmbody, self.handling = s[10], s[11]
                kind, val, site = 'return', None, None
                try:
                    val = thunk()
                    site = self.site
                except RaiseEx as e:
                    kind, val, site = 'raise', e.value, e.site or self.site
                except Infeasible:
                    kind = None
                except self.libs.Diverge as e:
                    kind, site = 'diverge', e.site
                except ReturnEx as e:
                    kind, val = 'ret', e.value
                    site = self.site
                except BreakEx:
                    kind = 'break'
                except ContinueEx:
                    kind = 'next'
                if kind:
                    out.append(Path(self.guards, kind, val, self.heap, self.events, site, self.facts))
                    out[-1].modules = self.modules
                    if len(out) > maxpaths:
                        raise Unsupported('more than %d paths' % maxpaths)
                self.paths_total += 1
                maxid, maxfresh = max(maxid, self.nid), max(maxfresh, self.nfresh)
                del trail[self.tpos:]
                while trail and trail[-1][1]:
                    trail.pop()
                if not trail:
                    break
                trail[-1][0], trail[-1][1] = False, True
        finally:
            (self.heap, self.facts, self.guards, self.events, self.trail, self.tpos,
             _, _, self.callstack, self.site, self.cmbody, self.handling) = s
            self.modules = mods
            self.nid, self.nfresh = maxid, maxfresh
        return out

    # ------------------------------------------------------------ errors
    def throw(self, clsname, msg=''):
        cls = self.libs.NATIVE[clsname]
        e = self.alloc(ObjCell(cls, {'args': (msg,)}))
        raise RaiseEx(e, self.site)

    def exc_name(self, v):
        if isinstance(v, Ref):
            return self.cell(v).cls.name
        return repr(v)

    # ------------------------------------------------------------ modules
    def modfile(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f, pkg = self.modfile(name)
        if not os.path.exists(f):
            self.throw('ImportError', 'No module named ' + name)
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        tree = self.parse(f)
        env = self.alloc(EnvCell({}, None, None)).id
        m = ModuleV(name, env)
        m.file, m.pkg = f, pkg
        self.heap[env].module = m
        self.heap[env].vars['__name__'] = name
        self.heap[env].vars['__file__'] = f
        if pkg:
            self.heap[env].vars['__path__'] = self.newlist([os.path.dirname(f)])
        self.modules[name] = m
        if parent is not None:
            pass
        self.exec_block(tree.body, env)
        if parent is not None:
            self.wcell(parent.env).vars[name.rsplit('.', 1)[1]] = m
        return m

    def parse(self, f):
        if f not in self.asts:
            with open(f, encoding='utf-8') as fh:
                src = fh.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t = ast.parse(src)
            for n in ast.walk(t):
                n._file = f
            self.asts[f] = t
            self.files_seen.add(os.path.relpath(f, self.root))
        return self.asts[f]

    def getname(self, dotted):
        """Value of package.module.name[.attr]"""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            f, _ = self.modfile('.'.join(parts[:i]))
            if os.path.exists(f):
                v = self.load('.'.join(parts[:i]))
                for p in parts[i:]:
                    try:
                        v = self.getattr_(v, p)
                    except RaiseEx:
                        raise Unsupported('anchor %s not found' % dotted)
                return v
        raise Unsupported('anchor %s not found' % dotted)

    def modattr(self, m, name, must=True):
        c = self.heap[m.env]
        if name in c.vars:
            return c.vars[name]
        if m.pkg:
            sub = m.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            f, _ = self.modfile(sub)
            if must and os.path.exists(f):
                return self.load(sub)
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def mark(self, node, env):
        m = self.heap[env].module
        f = getattr(node, '_file', m.file if m else '?')
        r = self.rel.get(f)
        if r is None:
            r = self.rel[f] = os.path.relpath(f, self.root)
        self.site = Site(r, getattr(node, 'lineno', 0), self.callstack[-1] if self.callstack else '<module>')

    def exec(self, s, env):
        self.mark(s, env)
        self.steps += 1
        if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Unsupported('time budget of the case exhausted')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.site))
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == 'celest':
                m = self.load(a.name)
                v = m if a.asname else self.load('celest')
            else:
                v = LibV(a.name if a.asname else top)
            self.setname(a.asname or top, v, env)

    def x_ImportFrom(self, s, env):
        mod = s.module or ''
        if s.level:
            m = self.heap[env].module
            base = m.name.split('.')
            base = base[:len(base) - s.level + (1 if m.pkg else 0)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod == '__future__':
            return
        if mod.split('.')[0] == 'celest':
            m = self.load(mod)
            for a in s.names:
                if a.name == '*':
                    vars = self.heap[m.env].vars
                    names = None
                    if '__all__' in vars:
                        names = self.iter_concrete(vars['__all__'])
                    for k, v in list(vars.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith('_')):
                            self.setname(k, v, env)
                    continue
                v = self.modattr(m, a.name)
                if v is None and a.name not in self.heap[m.env].vars:
                    self.throw('ImportError', 'cannot import name ' + a.name + ' from ' + mod)
                self.setname(a.asname or a.name, v, env)
        else:
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('star import from ' + mod)
                self.setname(a.asname or a.name, self.libs.resolve(self, mod + '.' + a.name), env)

    def x_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.setname(s.name, f, env)

    def mkfunc(self, s, env, name):
        a = s.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        c = self.heap[env]
        fv = FuncV(s, env, c.module, name, defaults, kwd)
        return fv

    def decorate(self, d, f, env):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            p = self.ev(d.value, env)
            if isinstance(p, PropertyV):
                return PropertyV(p.fget, f) if d.attr == 'setter' else PropertyV(f, p.fset) if d.attr == 'getter' else p
        v = self.ev(d, env)
        return self.call(v, [f], {})

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [self.libs.as_class(self, b) for b in bases]
        bases = [b for b in bases if b is not None]
        cenv = self.alloc(EnvCell({}, env, self.heap[env].module)).id
        self.heap[cenv].isclass = True
        c = self.heap[cenv]
        c.isclass = True
        self.exec_block_class(s.body, cenv)
        ns = self.heap[cenv].vars
        cls = ClassV(s.name, bases, dict(ns), self.heap[env].module, s)
        for v in cls.ns.values():
            for f in (v, getattr(v, 'func', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                if isinstance(f, FuncV):
                    if f.cls is None:
                        f.cls = cls
        if cls.is_enum:
            n = 0
            cls.members = []
            for k, v in list(cls.ns.items()):
                if k.startswith('_') or isinstance(v, (FuncV, PropertyV, StaticV, ClassMV)):
                    continue
                if isinstance(v, OpaqueV) and v.name == 'enum.auto':
                    v = n + 1
                n = v if isinstance(v, int) else n
                same = [m for m in cls.members if type(m.value) == type(v) and m.value == v]
                mem = same[0] if same else EnumV(cls, k, v)
                if not same:
                    cls.members.append(mem)
                cls.ns[k] = mem
        out = cls
        for d in reversed(s.decorator_list):
            out = self.call(self.ev(d, env), [out], {})
        self.setname(s.name, out, env)

    def exec_block_class(self, body, env):
        for st in body:
            self.mark(st, env)
            if isinstance(st, ast.AnnAssign):
                c = self.wcell(env)
                c.vars.setdefault('__annotations__', [])
                c.vars['__annotations__'] = c.vars['__annotations__'] + [st.target.id]
            self.exec(st, env)

    def x_Return(self, s, env):
        v = self.ev0(s.value, env) if s.value else None
        self.mark(s, env)
        raise ReturnEx(v)

    def x_Assign(self, s, env):
        v = self.ev0(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = _OPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.setname(t.id, self.iop(op, cur, self.ev0(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr_(o, t.attr, self.iop(op, self.getattr_(o, t.attr), self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev0(t.slice, env)
            self.setitem(o, k, self.iop(op, self.getitem(o, k), self.ev0(s.value, env)))

    def iop(self, op, a, b):
        if isinstance(a, Arr) and a.ndim > 0:
            return self.np.inplace(self, op, a, b)
        if isinstance(a, Ref):
            c = self.cell(a)
            if isinstance(c, ObjCell):
                m = c.cls.lookup('__i%s__' % op)
                if m is not None:
                    r = self.call(BoundV(m, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(c, ListCell) and op == 'add':
                self.list_extend(a, b)
                return a
            if isinstance(c, ListCell) and c.kind == 'set':
                r = self.binop(op, a, b)
                self.heap[a.id] = self.cell(r).copy()
                return a
        return self.binop(op, a, b)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                c = self.wcell(env)
                c.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                self.libs.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.wcell(o.id).fields.pop(t.attr, None)

    def x_Raise(self, s, env):
        if s.exc is None:
            if getattr(self, 'handling', None):
                raise RaiseEx(self.handling[-1], self.site)
            self.throw('RuntimeError', 'No active exception to reraise')
        v = self.ev(s.exc, env)
        if isinstance(v, (ClassV, NativeClass)):
            v = self.call(v, [], {})
        self.mark(s, env)
        if not isinstance(v, Ref):
            if v is NOTIMPL or not isinstance(v, Ref):
                self.throw('TypeError', 'exceptions must derive from BaseException')
        raise RaiseEx(v, self.site)

    def x_Try(self, s, env):
        def handlers():
            try:
                self.exec_block(s.body, env)
            except RaiseEx as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, env)):
                        if h.name:
                            self.setname(h.name, e.value, env)
                        self.handling = getattr(self, 'handling', []) + [e.value]
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                        return
                raise
            self.exec_block(s.orelse, env)
        try:
            handlers()
        except (RaiseEx, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, env)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    def exc_match(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(v, c) for c in cls)
        c = self.cell(v).cls
        return cls in c.mro

    def x_With(self, s, env):
        def go(items):
            if not items:
                self.exec_block(s.body, env)
                return
            it = items[0]
            cm = self.ev(it.context_expr, env)
            if isinstance(cm, OpaqueV) and hasattr(cm, 'gen'):
                left = []

                def body(v):
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, env)
                        go(items[1:])
                    except (ReturnEx, BreakEx, ContinueEx) as e:
                        left.append(e)
                f, a, k = cm.gen
                self.cmbody = body
                self.call(f, list(a), dict(k))
                if left:
                    raise left[0]
                return
            v = self.libs.enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                go(items[1:])
            except RaiseEx as e:
                if self.libs.exit_(self, cm, e.value):
                    return
                raise
            except (ReturnEx, BreakEx, ContinueEx):
                self.libs.exit_(self, cm, None)
                raise
            else:
                self.libs.exit_(self, cm, None)
        go(s.items)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.throw('AssertionError')

    def x_Global(self, s, env):
        pass

    x_Nonlocal = x_Global

    def quick(self, n, env):
        """Truth of a test that is decided by the current state alone, else None."""
        if isinstance(n, ast.BoolOp):
            und = False
            for x in n.values:
                t = self.quick(x, env)
                if t is None:
                    und = True
                    break
                if t != isinstance(n.op, ast.And):
                    return t
            return None if und else isinstance(n.op, ast.And)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.quick(n.operand, env)
            return None if t is None else not t
        if isinstance(n, ast.Constant):
            return bool(n.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and join.plain(n):
            if type(self.ev0(n.args[0], env)) in (SelV, MaybeV):
                return None
            v = self.ev(n, env)
            return v if isinstance(v, bool) else None
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and join.plain(n) and not isinstance(n.ops[0], (ast.In, ast.NotIn)):
            a, b = self.ev_size(n.left, env), self.ev_size(n.comparators[0], env)
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) or all(
                    isinstance(x, (int, float, str, Term, EnumV, ClassV)) or x is None for x in (a, b)) and \
                    not any(type(x) in (SelV, MaybeV) for x in (a, b)):
                v = self.cmp1(n.ops[0], a, b)
                v = T.tobool(v) if isinstance(v, Term) else v
                return v if isinstance(v, bool) else None
            return None
        if isinstance(n, ast.Name):
            v = self.ev0(n, env)
            return bool(v) if isinstance(v, (int, float, str)) or v is None else None
        return None

    def x_If(self, s, env):
        t = self.quick(s.test, env)
        if t is not None:
            self.exec_block(s.body if t else s.orelse, env)
            return

        def go():
            if self.truth(self.force(self.ev_size(s.test, env))):
                self.exec_block(s.body, env)
            else:
                self.exec_block(s.orelse, env)
        if join.eligible(s) and join.attempt(self, s, go)[0]:
            return
        go()

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, v, env) and (case.guard is None or self.truth(self.ev(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('eq', v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.setname(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.libs.isinstance_(self, v, self.ev(p.cls, env)))
        raise Unsupported('match pattern at %s' % self.site)

    # -------------------------------------------------------- loops
    def x_For(self, s, env):
        it = self.ev(s.iter, env)
        self.mark(s, env)

        def body(v):
            self.assign(s.target, v, env)
            self.exec_block(s.body, env)

        if self.foreach(it, body, s, env):
            self.exec_block(s.orelse, env)

    def foreach(self, it, body, node, env):
        """Run body over the iterable; False when left by break."""
        from . import loops
        return loops.foreach(self, it, body, node, env)

    def x_While(self, s, env):
        from . import loops
        if loops.while_(self, s, env):
            self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    # ------------------------------------------------------------ names
    def setname(self, name, v, env):
        c = self.heap[env]
        if name in c.globals_ and c.func is not None:
            kind = c.func.get(name)
            if kind == 'global':
                self.wcell(c.module.env).vars[name] = v
                return
            e = c.parent
            while e is not None:
                if name in self.heap[e].vars:
                    self.wcell(e).vars[name] = v
                    return
                e = self.heap[e].parent
        self.wcell(env).vars[name] = v

    def lookup(self, name, env):
        e = env
        c = self.heap[e]
        if name in c.vars and not (name in c.globals_):
            v = c.vars[name]
            if type(v) is MaybeV:
                if not self.decide(v.cond):
                    self.throw('UnboundLocalError', name)
                v = self.wcell(e).vars[name] = v.value
            return v
        if c.locals_ is not None and name in c.locals_ and name not in c.globals_:
            self.throw('UnboundLocalError', name)
        e = c.parent
        while e is not None:
            p = self.heap[e]
            if name in p.vars and not getattr(p, 'isclass', False):
                if type(p.vars[name]) is MaybeV:
                    raise Unsupported('maybe-unbound variable of an enclosing scope')
                return p.vars[name]
            e = p.parent
        g = self.heap[c.module.env].vars
        if name in g:
            return g[name]
        b = self.libs.BUILTINS.get(name)
        if b is not None or name in self.libs.BUILTINS:
            return b
        self.throw('NameError', name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, n, bool(star))
            if star:
                i = star[0]
                k = n - i - 1
                if len(vals) < n - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                mid = vals[i:len(vals) - k]
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.newlist(mid), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - k:]):
                    self.assign(e, x, env)
            else:
                if len(vals) != n:
                    self.throw('ValueError', 'wrong number of values to unpack')
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, self.force(v))
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev0(t.slice, env), v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n=None, star=False):
        return self.iter_concrete(v)

    def iter_concrete(self, v):
        """Items of an iterable."""
        return list(self.libs.iterate(self, v))

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        v = self.ev0(n, env)
        return v if type(v) is not SelV and type(v) is not tuple else self.force(v)

    def force(self, v):
        """v without undecided selections."""
        if type(v) is SelV:
            return self.np.force(self, v)
        if type(v) is tuple and any(type(x) is SelV for x in v):
            return tuple(self.force(x) for x in v)
        return v

    def ev0(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.site))
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.ev_items(n.elts, env))

    def ev_items(self, elts, env, ev=None):
        ev = ev or self.ev
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_concrete(self.ev(e.value, env)))
            else:
                out.append(ev(e, env))
        return out

    def e_List(self, n, env):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            r = self.newlist([])
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.list_extend(r, self.ev(e.value, env))
                else:
                    self.list_append(r, self.ev(e, env))
            return r
        return self.newlist(self.ev_items(n.elts, env))

    def e_Set(self, n, env):
        r = self.newlist([], 'set')
        for v in self.ev_items(n.elts, env):
            self.libs.set_add(self, r, v)
        return r

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.cell(self.ev(v, env)).d)
            else:
                d[self.libs.key(self, self.ev(k, env))] = self.ev(v, env)
        return self.alloc(DictCell(d))

    def e_BinOp(self, n, env):
        a = self.ev0(n.left, env)
        b = self.ev0(n.right, env)
        return self.binop(_OPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev0(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.not_val(self.force(v))
        return self.unop({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)], v)

    def not_val(self, v):
        if isinstance(v, Term):
            return T.not_(T.tobool(v))
        return not self.truth(v)

    def e_BoolOp(self, n, env):
        v = None
        last = len(n.values) - 1
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == last:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, Term) else (False if v.sort == 'b' else v)
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, Term) else (True if v.sort == 'b' else v)
        return v

    def e_Compare(self, n, env):
        a = self.ev_size(n.left, env)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev_size(r, env)
            v = self.cmp1(op, a, b)
            if i == len(n.ops) - 1:
                return v
            if not self.truth(v):
                return False if isinstance(v, (Term, bool)) else v
            a = b
        return res

    def ev_size(self, n, env):
        """Operand of a comparison or condition: the size of a selection may stay symbolic."""
        x = None
        if isinstance(n, ast.Attribute) and n.attr == 'size':
            x = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            x = n.args[0]
        if isinstance(x, ast.Name):
            v = self.lookup(x.id, env)
            if type(v) is SelV:
                return self.np.sel_count(v)
        return self.ev0(n, env)

    def cmp1(self, op, a, b):
        if not isinstance(op, tuple(_CMP)):
            a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Is):
            return self.libs.is_(self, a, b)
        if isinstance(op, ast.IsNot):
            return self.not_val(self.libs.is_(self, a, b))
        if isinstance(op, ast.In):
            return self.libs.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            return self.not_val(self.libs.contains(self, b, a))
        return self.compare(_CMP[type(op)], a, b)

    def e_IfExp(self, n, env):
        t = self.quick(n.test, env)
        if t is not None:
            return self.ev(n.body if t else n.orelse, env)

        def go():
            return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
        done, v = join.attempt(self, n, go, True)
        return v if done else go()

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env, '<lambda>')

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.setname(n.target.id, v, env)
        return v

    def e_Attribute(self, n, env):
        v = self.ev0(n.value, env)
        if type(v) is SelV:
            if n.attr in ('astype', 'copy'):
                return BuiltinV('sel.' + n.attr, lambda I, a, k: I.np.sel_map(I, v, lambda x: I.call(I.getattr_(x, n.attr), a, k)))
            if n.attr in ('sum', 'any', 'all'):
                return BuiltinV('sel.' + n.attr, lambda I, a, k: I.np.sel_reduce(I, n.attr, v, a, k))
        return self.getattr_(self.force(v), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev0(n.value, env)
        return self.getitem(o, self.ev0(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        return T.cat(*parts) if parts else ''

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        spec = ''
        if n.format_spec is not None:
            spec = self.e_JoinedStr(n.format_spec, env)
        if n.conversion == ord('r'):
            v = self.libs.repr_(self, v)
        elif n.conversion == ord('s'):
            v = self.libs.str_(self, v)
        return self.libs.format_(self, v, spec)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.zero_super(env)
        f = self.ev(n.func, env)
        if isinstance(f, BuiltinV) and f.name in ('any', 'all', 'next') and n.args and not n.keywords \
                and isinstance(n.args[0], ast.GeneratorExp) and f is self.libs.BUILTINS[f.name]:
            r = self.lazy_reduce(f.name, n.args[0], env)
            if r is not self.libs.STOP:
                return r
            if len(n.args) > 1:
                return self.ev(n.args[1], env)
            self.throw('StopIteration')
        args = self.ev_items(n.args, env, self.ev0)
        kw = {}
        for k in n.keywords:
            v = self.ev0(k.value, env)
            if k.arg is None:
                for kk, vv in self.cell(v).d.items():
                    kw[self.libs.unkey(kk)] = vv
            else:
                kw[k.arg] = v
        if isinstance(f, BuiltinV) and f.name in ('globals', 'locals'):
            if f.name == 'globals':
                return NamespaceV(self.heap[env].module.env)
            return NamespaceV(env)
        self.mark(n, env)
        site = self.site
        r = self.call0(f, args, kw)
        self.site = site
        return r

    def zero_super(self, env):
        e = env
        while e is not None:
            c = self.heap[e]
            if c.func is not None and c.func.get('__class__') is not None:
                fv = c.func['__class__']
                a = fv.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperV(fv.cls, c.vars[first])
            e = c.parent
        raise Unsupported('super() outside of a method')

    def _comp(self, n, env, emit):
        cenv = self.alloc(EnvCell({}, env, self.heap[env].module, None, ())).id
        # comprehension scopes see the enclosing function scope, not class scope
        gens = n.generators

        def go(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            it = self.ev(g.iter, env if i == 0 else cenv)

            def body(v):
                self.assign(g.target, v, cenv)
                for cnd in g.ifs:
                    if not self.truth(self.ev(cnd, cenv)):
                        raise ContinueEx()
                go(i + 1)

            self.foreach(it, body, n, cenv)
        go(0)

    def e_ListComp(self, n, env):
        r = self.newlist([])
        self._comp(n, env, lambda e: self.list_append(r, self.ev(n.elt, e)))
        return r

    def e_GeneratorExp(self, n, env):
        return self.libs.mkiter(self, self.e_ListComp(n, env))

    def lazy_reduce(self, name, n, env):
        """any / all / next over a generator expression, without running it to its end."""
        res = []

        def emit(e):
            v = self.ev(n.elt, e)
            if name == 'next':
                res.append(v)
                raise self.libs.StopGen()
            if self.truth(v) == (name == 'any'):
                res.append(name == 'any')
                raise self.libs.StopGen()
        try:
            self._comp(n, env, emit)
        except self.libs.StopGen:
            pass
        if res:
            return res[0]
        if name == 'next':
            return self.libs.STOP
        return name == 'all'

    def e_SetComp(self, n, env):
        r = self.newlist([], 'set')
        self._comp(n, env, lambda e: self.libs.set_add(self, r, self.ev(n.elt, e)))
        return r

    def e_DictComp(self, n, env):
        r = self.alloc(DictCell({}))

        def emit(e):
            k = self.libs.key(self, self.ev(n.key, e))
            v = self.ev(n.value, e)
            self.wcell(r.id).d[k] = v
        self._comp(n, env, emit)
        return r

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = env
        while '__yield__' not in self.heap[e].vars:
            e = self.heap[e].parent
        cb = self.heap[e].vars.get('__cm__')
        if cb is not None:
            cb(v)
            return None
        self.list_append(self.heap[e].vars['__yield__'], v)
        return None

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        self.list_extend(self.heap[env].vars['__yield__'], v)
        return None

    # ------------------------------------------------------------ lists
    def list_append(self, r, v):
        c = self.wcell(r.id)
        if c.segs and not c.segs[-1].gen:
            c.segs[-1].items.append(v)
        else:
            c.segs.append(Seg(items=[v]))

    def list_extend(self, r, it):
        if isinstance(it, Ref) and it.id == r.id:
            it = tuple(self.cell(it).items)
        for v in self.libs.iterate(self, it):
            self.list_append(r, v)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Term):
            return self.decide(v)
        if isinstance(v, (bool, int, float, str, type(None))):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, range):
            return len(v) > 0
        if isinstance(v, EnumV):
            if any(b.name in ('IntEnum', 'IntFlag') for b in v.cls.mro):
                return bool(v.value)
            return True
        if isinstance(v, Arr):
            return self.np.truth(self, v)
        if isinstance(v, self.libs.DictView):
            return bool(self.cell(v.ref).d)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return self.truth(T.gt(self.libs.len_(self, v), 0))
            if isinstance(c, DictCell):
                return bool(c.d)
            if isinstance(c, ObjCell):
                m = c.cls.lookup('__bool__')
                if m is not None:
                    return self.truth(self.call(BoundV(m, v), [], {}))
                m = c.cls.lookup('__len__')
                if m is not None:
                    r = self.call(BoundV(m, v), [], {})
                    return self.truth(T.not_(T.eq(r, 0)))
                return True
        if v is NOTIMPL:
            return True
        if isinstance(v, OpaqueV):
            if 'truth' in v.attrs:
                return self.decide(v.attrs['truth'])
            return True
        return True

    # ------------------------------------------------------------ operators
    def unop(self, op, v):
        if type(v) is SelV:
            return self.np.sel_map(self, v, lambda x: self.unop(op, x))
        if isinstance(v, EnumV):
            v = v.value
        if isinstance(v, (int, float)):
            return {'neg': lambda x: -x, 'pos': lambda x: +x, 'invert': lambda x: ~int(x)}[op](v)
        if isinstance(v, Term):
            if op == 'neg':
                return T.neg(v)
            if op == 'pos':
                return v
            if v.sort == 'i':
                return T.sub(-1, v)
            raise Unsupported('~ on a symbolic value')
        if isinstance(v, Arr):
            return self.np.unop(self, op, v)
        if isinstance(v, Ref) and isinstance(self.cell(v), ObjCell) and self.cell(v).cls.name == 'timedelta' and op == 'neg':
            return self.libs.mk_td(self, T.neg(self.cell(v).fields['days']))
        if isinstance(v, Ref) and isinstance(self.cell(v), ObjCell):
            m = self.cell(v).cls.lookup('__%s__' % op)
            if m is not None:
                return self.call(BoundV(m, v), [], {})
        self.throw('TypeError', 'bad operand type for unary ' + op)

    def is_seq(self, v):
        return isinstance(v, tuple) or isinstance(v, Ref) and isinstance(self.heap.get(v.id), ListCell)

    def is_obj(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), ObjCell)

    def binop(self, op, a, b):
        if type(a) is SelV or type(b) is SelV:
            r = self.np.sel_map2(self, a, b, lambda x, y: self.binop(op, x, y))
            if r is not None:
                return r
            a, b = self.force(a), self.force(b)
        if isinstance(a, EnumV) and any(x.name in ('IntEnum', 'IntFlag') for x in a.cls.mro):
            a = a.value
        if isinstance(b, EnumV) and any(x.name in ('IntEnum', 'IntFlag') for x in b.cls.mro):
            b = b.value
        if op == 'mod' and (isinstance(a, str) or isinstance(a, Term) and a.sort == 's'):
            return self.libs.percent(self, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.np.binop(self, op, a, b)
            if r is not NOTIMPL:
                return r
        if self.is_obj(a) or self.is_obj(b) or isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return self.obj_binop(op, a, b)
        if isinstance(a, (int, float, Term)) and isinstance(b, (int, float, Term)) and \
                T.sort_of(a) in 'fib' and T.sort_of(b) in 'fib':
            return self.num_binop(op, a, b)
        sa = isinstance(a, str) or (isinstance(a, Term) and a.sort == 's')
        sb = isinstance(b, str) or (isinstance(b, Term) and b.sort == 's')
        if op == 'add' and sa and sb:
            return T.cat(a, b)
        if op == 'mod' and sa:
            return self.libs.percent(self, a, b)
        if op == 'mul' and sa != sb and T.sort_of(b if sa else a) in 'ib':
            s, n = (a, b) if sa else (b, a)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
            return T.mk('strrep', (s, n), 's')
        if op == 'or' and any(isinstance(x, (ClassV, NativeClass)) for x in (a, b)):
            f = lambda x: x if isinstance(x, tuple) else (self.libs.NATIVE['NoneType'] if x is None else x,)
            return f(a) + f(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'add':
            return tuple(a) + tuple(b)
        if isinstance(a, tuple) and isinstance(b, int) and op == 'mul':
            return a * b
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = self.libs.list_binop(self, op, a, b)
            if r is not NOTIMPL:
                return r
        if isinstance(a, Term) and a.sort == 'o' or isinstance(b, Term) and b.sort == 'o':
            return T.opaque('op_' + op, (a, b), 'o')
        self.throw('TypeError', 'unsupported operand types for ' + op)

    def num_binop(self, op, a, b):
        if op == 'add':
            return T.add(a, b)
        if op == 'sub':
            return T.sub(a, b)
        if op == 'mul':
            return T.mul(a, b)
        if op in ('truediv', 'floordiv', 'mod'):
            if T.isnum(b) or isinstance(b, bool):
                if b == 0:
                    self.throw('ZeroDivisionError', 'division by zero')
            else:
                self.events.append(('div', b, list(self.guards), self.site))
            if op == 'truediv':
                return T.div(a, b)
            if op == 'mod':
                return T.mod(a, b)
            r = T.floordiv(a, b)
            return r
        if op == 'pow':
            if T.isnum(a) and T.isnum(b):
                try:
                    return a ** b
                except ZeroDivisionError:
                    self.throw('ZeroDivisionError')
            return T.power(a, b)
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if T.sort_of(a) == 'b' and T.sort_of(b) == 'b':
                if op == 'and':
                    return T.and_(a, b)
                if op == 'or':
                    return T.or_(a, b)
                return T.not_(T.eq(a, b)) if not (isinstance(a, Term) and isinstance(b, Term)) else \
                    T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b))
            if T.sort_of(a) == 'f' or T.sort_of(b) == 'f':
                self.throw('TypeError', 'unsupported operand types for ' + op)
        if op in ('lshift', 'rshift') and isinstance(a, int) and isinstance(b, int):
            return a << b if op == 'lshift' else a >> b
        if op == 'matmul':
            self.throw('TypeError', 'unsupported operand types for @')
        raise Unsupported('operator %s on symbolic integers' % op)

    def cls_of(self, v):
        return self.libs.type_(self, v)

    def obj_binop(self, op, a, b):
        tried = False
        if self.is_obj(a) and isinstance(self.cell(a).cls, NativeClass) or \
                self.is_obj(b) and isinstance(self.cell(b).cls, NativeClass):
            r = self.libs.dt_binop(self, op, a, b)
            if r is not NOTIMPL:
                return r
        la = self.cell(a).cls.lookup('__%s__' % op) if self.is_obj(a) else None
        lb = self.cell(b).cls.lookup('__r%s__' % op) if self.is_obj(b) else None
        if la is not None and lb is not None and self.is_obj(b) and self.cell(b).cls is not self.cell(a).cls \
                and subclass(self.cell(b).cls, self.cell(a).cls) and \
                lb is not self.cell(a).cls.lookup('__r%s__' % op):
            r = self.call(BoundV(lb, b), [a], {})
            if r is not NOTIMPL:
                return r
            lb = None
        if la is not None:
            r = self.call(BoundV(la, a), [b], {})
            if r is not NOTIMPL:
                return r
        if lb is not None and not (self.is_obj(a) and self.cell(a).cls is self.cell(b).cls):
            r = self.call(BoundV(lb, b), [a], {})
            if r is not NOTIMPL:
                return r
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, OpaqueV):
                m = x.methods.get(('r' if refl else '') + op)
                if m:
                    return m(self, y)
                h = self.libs.opaque_binop(self, op, x, y, refl)
                if h is not NOTIMPL:
                    return h
        if op == 'mod' and (isinstance(a, str)):
            return self.libs.percent(self, a, b)
        self.throw('TypeError', 'unsupported operand type(s) for %s' % op)

    def compare(self, op, a, b):
        if type(a) is SelV or type(b) is SelV:
            r = self.np.sel_map2(self, a, b, lambda x, y: self.compare(op, x, y))
            if r is not None:
                return r
            a, b = self.force(a), self.force(b)
        if isinstance(a, EnumV) and any(x.name in ('IntEnum', 'IntFlag') for x in a.cls.mro):
            a = a.value
        if isinstance(b, EnumV) and any(x.name in ('IntEnum', 'IntFlag') for x in b.cls.mro):
            b = b.value
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.np.compare(self, op, a, b)
            if r is not NOTIMPL:
                return r
        if self.is_obj(a) or self.is_obj(b):
            for x, y, o in ((a, b, op), (b, a, _REFL[op])):
                if self.is_obj(x):
                    m = self.cell(x).cls.lookup('__%s__' % o)
                    if m is not None:
                        r = self.call(BoundV(m, x), [y], {})
                        if r is not NOTIMPL:
                            return r
                    elif o == 'ne':
                        m = self.cell(x).cls.lookup('__eq__')
                        if m is not None:
                            r = self.call(BoundV(m, x), [y], {})
                            if r is not NOTIMPL:
                                return self.not_val(r)
            if op == 'eq':
                return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
            if op == 'ne':
                return not (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)
            self.throw('TypeError', "'%s' not supported between these operands" % op)
        num = lambda x: isinstance(x, (int, float)) or (isinstance(x, Term) and x.sort in 'fib')
        st = lambda x: isinstance(x, str) or (isinstance(x, Term) and x.sort == 's')
        if num(a) and num(b):
            return getattr(T, op)(a, b)
        if st(a) and st(b):
            if isinstance(a, str) and isinstance(b, str):
                return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[op]
            if op in ('eq', 'ne'):
                return getattr(T, op)(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.libs.seq_compare(self, op, list(a), list(b))
        if op in ('eq', 'ne'):
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = self.libs.container_eq(self, a, b)
            elif isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort == 'o':
                r = T.eq(a, b)
            elif isinstance(a, Term) and a.sort == 'o' or isinstance(b, Term) and b.sort == 'o':
                r = T.mk('eqo', (a, b) if isinstance(a, Term) else (b, a), 'b')
            elif num(a) or num(b) or st(a) or st(b):
                r = False
            else:
                r = self.libs.is_(self, a, b)
            return r if op == 'eq' else self.not_val(r)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell) and ca.concrete and cb.concrete:
                if ca.kind == 'set':
                    return self.libs.set_compare(self, op, a, b)
                return self.libs.seq_compare(self, op, ca.items, cb.items)
        h = self.libs.opaque_compare(self, op, a, b)
        if h is not NOTIMPL:
            return h
        self.throw('TypeError', "'%s' not supported between these operands" % op)

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name, default=None, has_default=False):
        r = self._getattr(v, name)
        if r is _MISSING:
            if self.libs.model_gap(self, v, name):
                raise Unsupported('attribute %s of %s at %s' % (name, self.libs.tname(self, v), self.site))
            if has_default:
                return default
            self.throw('AttributeError', "%s has no attribute '%s'" % (self.libs.tname(self, v), name))
        return r

    def _getattr(self, v, name):
        if isinstance(v, ModuleV):
            r = self.modattr(v, name)
            if r is None and name not in self.heap[v.env].vars:
                return _MISSING
            return r
        if isinstance(v, LibV):
            return self.libs.resolve(self, v.path + '.' + name)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ObjCell):
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    return self.alloc(DictCell(dict(c.fields)))
                m = c.cls.lookup(name)
                if isinstance(m, PropertyV):
                    return self.call(m.fget, [v], {})
                if name in c.fields:
                    return c.fields[name]
                if m is not None or (isinstance(c.cls, ClassV) and c.cls.has(name)):
                    return self.bind(m, v, c.cls)
                h = self.libs.native_attr(self, v, c, name)
                if h is not None:
                    return h
                if isinstance(c.cls, ClassV):
                    ga = c.cls.lookup('__getattr__')
                    if ga is not None:
                        return self.call(BoundV(ga, v), [name], {})
                return _MISSING
            h = self.libs.container_attr(self, v, c, name)
            return h if h is not None else _MISSING
        if isinstance(v, Arr):
            return self.np.attr(self, v, name)
        if isinstance(v, ClassV):
            if name == '__name__' or name == '__qualname__':
                return v.name
            if name == '__mro__':
                return tuple(v.mro)
            if name == '__members__' and v.is_enum:
                return self.alloc(DictCell({m.name: m for m in v.members}))
            m = v.lookup(name)
            if m is None and not v.has(name):
                h = self.libs.class_attr(self, v, name)
                return h if h is not None else _MISSING
            if isinstance(m, StaticV):
                return m.func
            if isinstance(m, ClassMV):
                return BoundV(m.func, v)
            return m
        if isinstance(v, NativeClass):
            if name == '__name__':
                return v.name
            h = self.libs.native_class_attr(self, v, name)
            return h if h is not None else _MISSING
        if isinstance(v, EnumV):
            if name == 'value' or name == '_value_':
                return v.value
            if name == 'name' or name == '_name_':
                return v.name
            if name == '__class__':
                return v.cls
            m = v.cls.lookup(name)
            if m is not None:
                if isinstance(m, PropertyV):
                    return self.call(m.fget, [v], {})
                return self.bind(m, v, v.cls)
            return _MISSING
        if isinstance(v, SuperV):
            inst = v.self_
            cls = self.cell(inst).cls if isinstance(inst, Ref) else inst
            mro = cls.mro
            i = mro.index(v.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    m = k.ns[name]
                    if isinstance(m, PropertyV):
                        return self.call(m.fget, [inst], {})
                    return self.bind(m, inst, cls)
            if name in ('__init__', '__init_subclass__', '__setattr__'):
                return BuiltinV('object.' + name, lambda I, a, k: None)
            return _MISSING
        if isinstance(v, FuncV):
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '__doc__':
                return None
            return getattr(v, 'attrs', {}).get(name, _MISSING)
        if isinstance(v, BoundV):
            if name == '__name__':
                return v.func.name
            if name == '__self__':
                return v.self_
            if name == '__func__':
                return v.func
        if isinstance(v, OpaqueV):
            if name in v.attrs:
                return v.attrs[name]
            if name in v.methods:
                f = v.methods[name]
                return BuiltinV(v.name + '.' + name, f)
            if name == '__class__' and v.cls is not None:
                return v.cls
            return self.libs.opaque_attr(self, v, name)
        if isinstance(v, BuiltinV) and name == '__name__':
            return v.name
        if isinstance(v, DTypeV):
            if name in ('name', 'str'):
                return self.np.NAMES[v.name]
            if name == 'kind':
                return 'f' if v.name == 'g' else v.name
            if name == 'itemsize':
                return 8
            if name == 'type':
                return self.libs.NATIVE[self.np.NAMES[v.name]]
        if isinstance(v, NamespaceV):
            return self.libs.container_attr(self, v, None, name) or _MISSING
        h = self.libs.scalar_attr(self, v, name)
        return h if h is not None else _MISSING

    def bind(self, m, inst, cls):
        if isinstance(m, FuncV) or isinstance(m, BuiltinV):
            if isinstance(m, FuncV):
                return BoundV(m, inst)
            return BuiltinV(m.name, lambda I, a, k, m=m: m.fn(I, [inst] + a, k)) if isinstance(m, self.libs.FuncLike) \
                or m.name.startswith(('dataclass', 'ordering')) else m
        if isinstance(m, StaticV):
            return m.func
        if isinstance(m, ClassMV):
            return BoundV(m.func, cls)
        if isinstance(m, LibV):
            return m
        return m

    def setattr_(self, o, name, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjCell):
                m = c.cls.lookup(name)
                if isinstance(m, PropertyV):
                    if m.fset is None:
                        self.throw('AttributeError', "can't set attribute '%s'" % name)
                    self.call(m.fset, [o, v], {})
                    return
                if getattr(c, 'frozen', False):
                    self.throw('AttributeError', 'cannot assign to field')
                sa = c.cls.lookup('__setattr__')
                if isinstance(sa, FuncV):
                    self.call(BoundV(sa, o), [name, v], {})
                    return
                self.wcell(o.id).fields[name] = v
                return
        if isinstance(o, ClassV):
            self.events.append(('classattr', o, name, self.site))
            o.ns[name] = v
            return
        if isinstance(o, ModuleV):
            self.wcell(o.env).vars[name] = v
            return
        if isinstance(o, FuncV):
            o.attrs = dict(getattr(o, 'attrs', {}), **{name: v})
            return
        if isinstance(o, OpaqueV):
            self.events.append(('setattr', o, name, v, self.site))
            return
        if isinstance(o, Arr) and name == 'shape':
            raise Unsupported('in-place reshape')
        self.throw('AttributeError', name)

    def getitem(self, o, k):
        if type(o) is SelV or type(k) is SelV or isinstance(o, Arr) and isinstance(k, Arr) and k.ndim == 1:
            r = self.np.sel_getitem(self, o, k)
            if r is not None:
                return r
            o, k = self.force(o), self.force(k)
        elif type(o) is tuple and isinstance(k, int):
            return self.libs.getitem(self, o, k)
        return self.libs.getitem(self, self.force(o), self.force(k))

    def setitem(self, o, k, v):
        if type(k) is SelV or type(v) is SelV or isinstance(o, Arr) and isinstance(k, Arr) and k.ndim == 1:
            if self.np.sel_setitem(self, o, k, v):
                return
            o, k, v = self.force(o), self.force(k), self.force(v)
        return self.libs.setitem(self, o, self.force(k), self.force(v))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        return self.force(self.call0(f, args, kw))

    def call0(self, f, args, kw):
        self.calls_seen += 1
        if isinstance(f, BoundV):
            return self.call0(f.func, [f.self_] + list(args), kw) if isinstance(f.func, (FuncV, BuiltinV)) \
                else self.call0(f.func, list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if any(type(x) is SelV for x in args) or any(type(x) is SelV for x in kw.values()):
            if isinstance(f, LibV) and not kw:
                r = self.np.sel_call(self, f, args)
                if r is not None:
                    return r
            args = [self.force(x) for x in args]
            kw = {k: self.force(x) for k, x in kw.items()}
        if isinstance(f, BuiltinV):
            return f.fn(self, list(args), kw)
        if isinstance(f, LibV):
            return self.libs.call_lib(self, f.path, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, NativeClass):
            return self.libs.call_native(self, f, list(args), kw)
        if isinstance(f, OpaqueV):
            if f.call:
                return f.call(self, list(args), kw)
        if isinstance(f, DTypeV):
            return self.np.cast_scalar(self, f, args)
        if isinstance(f, Ref) and isinstance(self.cell(f), ObjCell):
            m = self.cell(f).cls.lookup('__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kw)
        if isinstance(f, Term):
            raise Unsupported('call of a symbolic value %r at %s' % (f, self.site))
        self.throw('TypeError', 'object is not callable')

    def qual(self, f):
        return '%s.%s' % (f.module.name if f.module else '?', (f.cls.name + '.' if f.cls else '') + f.name)

    def call_func(self, f, args, kw):
        q = self.qual(f)
        if q in self.hooks:
            r = self.hooks[q](self, f, args, kw)
            if r is not NOTIMPL:
                return r
        if not self.rec and not kw and self.nomemo.get(f, 0) < 4 and len(args) <= 4:
            k = (f,) + tuple(('r', a.id) if type(a) is Ref else (type(a), a) for a in args if type(a) is Ref or a is None or type(a) in (int, str, bool) or type(a) is EnumV)
            if len(k) == len(args) + 1:
                return self.call_memo(k, f, args)
        return self.call_body(f, args, kw, q)

    def call_memo(self, k, f, args):
        """Calls that only read cells of the heap and yield an immutable value are summarised by what they read."""
        es = self.memo.get(k)
        q = self.qual(f)
        h = self.heap
        if es is not None:
            for cells, v in es:
                if all(h.get(i) is c for i, c in cells):
                    return v
        nid0, mw, ev0, gu0, tp0, nf0, im0, mods0 = self.nid, self.minw, len(self.events), len(self.guards), self.tpos, self.nfresh, self.impure, len(self.modules)
        t = HeapT(h)
        t.reads = set()
        self.heap, self.rec, self.minw = t, True, 1 << 60
        done = False
        try:
            v = self.call_body(f, args, {}, q)
            done = True
        finally:
            self.rec = False
            good = done and type(self.heap) is HeapT and self.heap.reads is t.reads and self.minw > nid0 and len(self.events) == ev0 and \
                len(self.guards) == gu0 and self.tpos == tp0 and self.nfresh == nf0 and self.impure == im0 and len(self.modules) == mods0
            self.heap, self.minw = dict(self.heap), min(mw, self.minw)
        if good and (v is None or type(v) in (str, int, float, bool) or type(v) in (EnumV, ClassV) or type(v) is Ref and v.id <= nid0 or
                     type(v) is tuple and all(type(x) in (str, int, float, bool) or x is None for x in v)):
            if es is None:
                es = self.memo[k] = []
            if len(es) < 6:
                es.append(([(i, h[i]) for i in t.reads if i <= nid0 and i in h], v))
        else:
            self.nomemo[f] = self.nomemo.get(f, 0) + 1
        return v

    def call_body(self, f, args, kw, q):
        if len(self.callstack) > 60:
            self.throw('RecursionError', 'maximum recursion depth exceeded')
        node = f.node
        a = node.args
        pos = a.posonlyargs + a.args
        vars = {}
        n = len(pos)
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if len(args) > n:
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
            vars[a.vararg.arg] = tuple(self.force(x) for x in args[n:])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        extra = {}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vars:
                    self.throw('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = self.force(v)
            else:
                self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.alloc(DictCell(extra))
        nd = len(f.defaults)
        for p, d in zip(pos[n - nd:] if nd else [], f.defaults):
            vars.setdefault(p.arg, d)
        for k, d in f.kwdefaults.items():
            vars.setdefault(k, d)
        for p in pos + a.kwonlyargs:
            if p.arg not in vars:
                self.throw('TypeError', "%s() missing required argument '%s'" % (f.name, p.arg))
        loc, glb, isgen = scope_of(node)
        info = dict(glb)
        info['__class__'] = f if f.cls is not None else None
        env = self.alloc(EnvCell(vars, f.env, f.module, loc, frozenset(glb), info)).id
        parent = self.heap[f.env]
        if getattr(parent, 'isclass', False):
            self.heap[env].parent = parent.parent
        self.funcs_seen.add(q)
        self.callstack.append(q)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if isgen:
                self.heap[env].vars['__yield__'] = self.newlist([])
                if self.cmbody is not None:
                    self.heap[env].vars['__cm__'], self.cmbody = self.cmbody, None
            try:
                self.exec_block(node.body, env)
                r = None
            except ReturnEx as e:
                r = e.value
            if isgen:
                return self.libs.mkiter(self, self.heap[env].vars['__yield__'])
            return r
        finally:
            self.callstack.pop()

    def instantiate(self, cls, args, kw):
        if cls.is_enum:
            if len(args) == 1:
                for m in cls.members:
                    if T.isconst(args[0]) and type(m.value) == type(args[0]) and m.value == args[0]:
                        return m
                    if args[0] is m:
                        return m
                self.throw('ValueError', 'not a valid ' + cls.name)
        new = cls.lookup('__new__')
        if isinstance(new, StaticV) or isinstance(new, FuncV):
            raise Unsupported('__new__ in ' + cls.name)
        o = self.alloc(ObjCell(cls))
        init = cls.lookup('__init__')
        if init is not None:
            self.call(BoundV(init, o), args, kw)
        elif any(isinstance(b, NativeClass) and b.name == 'BaseException' for b in cls.mro):
            self.wcell(o.id).fields['args'] = tuple(args)
        elif args or kw:
            self.throw('TypeError', cls.name + '() takes no arguments')
        if getattr(cls, 'frozen', False):
            self.wcell(o.id).frozen = True
        return o


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()
_SCOPES = {}


def scope_of(node):
    r = _SCOPES.get(id(node))
    if r is not None:
        return r[1]
    loc, glb = set(), {}
    isgen = [False]
    if isinstance(node, ast.Lambda):
        a = node.args
        loc = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        body = [node.body]
    else:
        a = node.args
        loc = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        body = node.body
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def visit(n, incomp):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Global):
            for x in n.names:
                glb[x] = 'global'
        if isinstance(n, ast.Nonlocal):
            for x in n.names:
                glb[x] = 'nonlocal'
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not incomp:
            loc.add(n.id)
        if isinstance(n, ast.NamedExpr):
            loc.add(n.target.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                loc.add((x.asname or x.name).split('.')[0])
        ic = incomp or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
        for c in ast.iter_child_nodes(n):
            visit(c, ic)
    for s in body:
        visit(s, False)
    res = (frozenset(loc - set(glb)), glb, isgen[0])
    _SCOPES[id(node)] = (node, res)
    return res
