"""Hash-consed value graph (gated value numbering) for the abstract interpreter.

A node denotes a scalar (number, boolean, string) that the analysed program
computes, as a function of input symbols.  Nodes are created by smart
constructors that fold constants and put sums, products and comparisons in a
canonical form, so that equal computations usually get the same value number.
`evaluate` interprets a graph over arrays of valuations; it is what decides two
graphs that have different value numbers.
"""
import math
from fractions import Fraction
import numpy as np

_TABLE = {}


class Axis:
    """A symbolic extent: the batch axis of arrays or the elements of a list."""
    __slots__ = ('name', 'kind', 'base', 'cond', 'parent')

    def __init__(self, name, kind='batch', base=None, cond=None, parent=None):
        self.name = name        # unique
        self.kind = kind        # 'batch' | 'list' | 'sel'
        self.base = base        # for 'sel': axis selected from
        self.cond = cond        # for 'sel': selecting condition (Term)
        self.parent = parent    # enclosing axes (tuple) the extent depends on

    def __repr__(self):
        return '<%s>' % self.name

    @property
    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'axes', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise RuntimeError('truth value of a symbolic term: %r' % (self,))

    # numpy object arrays of terms use these
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __neg__(self):
        return neg(self)


def _k(a):
    if isinstance(a, Term):
        return a.id
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    if isinstance(a, bool):
        return ('b', a)
    if isinstance(a, int):
        return ('i', a)
    if isinstance(a, float):
        return ('f', repr(a))
    if isinstance(a, str):
        return ('s', a)
    return ('o', id(a))


def _axes_of(args):
    out = frozenset()
    for a in args:
        if isinstance(a, Term):
            out |= a.axes
        elif isinstance(a, tuple):
            out |= _axes_of(a)
    return out


def mk(op, args, sort, axes=None):
    key = (op, sort, tuple(_k(a) for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, tuple(args), sort
        t.id = len(_TABLE) + 1
        t.axes = frozenset(axes) if axes is not None else _axes_of(args)
        _TABLE[key] = t
    return t


_PLAIN = {}


def plain(x):
    """Built from symbols and numbers by addition, multiplication by numbers, maxima and minima: never NaN."""
    if not isinstance(x, Term):
        return isinstance(x, (int, float)) and x == x
    r = _PLAIN.get(x.id)
    if r is None:
        if x.op == 'sym':
            r = x.sort in 'fi'
        elif x.op == 'add':
            r = plain(x.args[0]) and all(plain(y) for it in x.args[1] for y in it)
        elif x.op in ('max', 'min', 'scale'):
            r = all(plain(y) for y in x.args)
        else:
            r = False
        _PLAIN[x.id] = r
    return r


def sym(name, sort='f', axes=()):
    return mk('sym', (name,), sort, axes=[a.root for a in axes])


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def isconst(x):
    return isinstance(x, (int, float, bool, str))


def sort_of(x):
    if isinstance(x, Term):
        return x.sort
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    if isinstance(x, str):
        return 's'
    return 'o'


def _num(x):
    """Booleans used in arithmetic."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Term) and x.sort == 'b':
        return ite(x, 1, 0)
    return x


def isnan(x):
    x = _num(x)
    if isnum(x):
        return x != x
    return mk('isnan', (x,), 'b') if x.sort == 'f' else False


def isfinite(x):
    x = _num(x)
    if isnum(x):
        return math.isfinite(x)
    return mk('isfinite', (x,), 'b') if x.sort == 'f' else True


def f32(x):
    x = _num(x)
    if isnum(x):
        return float(np.float32(x))
    return x if x.op == 'f32' else mk('f32', (x,), 'f')


def _nsort(*xs):
    return 'f' if any(sort_of(x) == 'f' for x in xs) else 'i'


# ------------------------------------------------------------- arithmetic
def _lin(x):
    """x as (dict term->coef, const)"""
    if isnum(x):
        return {}, x
    if x.op == 'add':
        return dict(x.args[1]), x.args[0]
    if x.op == 'scale':
        return {x.args[1]: x.args[0]}, 0
    return {x: 1}, 0


def _unlin(d, c, sort):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return float(c) if sort == 'f' and isinstance(c, int) else c
    if len(items) == 1 and c == 0:
        t, k = items[0]
        if k == 1:
            return t if t.sort == sort or sort == 'i' else cast_f(t)
        return mk('scale', (k, t), sort)
    items.sort(key=lambda p: p[0].id)
    return mk('add', (c, tuple(items)), sort)


def cast_f(t):
    if isnum(t):
        return float(t)
    if t.sort == 'f':
        return t
    return mk('tofloat', (t,), 'f')


def add(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return a + b
    sort = _nsort(a, b)
    d1, c1 = _lin(a)
    d2, c2 = _lin(b)
    if len(d1) + len(d2) > 60:
        d1, c1 = ({a: 1}, 0) if not isnum(a) else (d1, c1)
        d2, c2 = ({b: 1}, 0) if not isnum(b) else (d2, c2)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + k
    return _unlin(d1, c1 + c2, sort)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    return add(a, neg(b))


def _prod(x):
    """x as (coef, dict term->power)"""
    if isnum(x):
        return x, {}
    if x.op == 'scale':
        c, d = _prod(x.args[1])
        return c * x.args[0], d
    if x.op == 'prod':
        return 1, dict(x.args[0])
    if x.op == 'pow' and isnum(x.args[1]):
        return 1, {x.args[0]: x.args[1]}
    return 1, {x: 1}


def _unprod(c, d, sort):
    items = [(t, p) for t, p in d.items() if p != 0]
    if c == 0:
        return 0.0 if sort == 'f' else 0
    if not items:
        return float(c) if sort == 'f' and isinstance(c, int) else c
    if len(items) == 1:
        t, p = items[0]
        if p == 1:
            body = t
        else:
            body = mk('pow', (t, p), sort if not (isinstance(p, float) or p < 0) else 'f')
    else:
        items.sort(key=lambda q: q[0].id)
        body = mk('prod', (tuple(items),), sort)
    if c == 1:
        return body if body.sort == sort or sort == 'i' else cast_f(body)
    dl, k = _lin(body)
    if len(dl) > 1 and len(dl) <= 60 or (len(dl) == 1 and k != 0):
        return _unlin({t: v * c for t, v in dl.items()}, k * c, sort)
    return mk('scale', (c, body), sort)


def mul(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return a * b
    sort = _nsort(a, b)
    c1, d1 = _prod(a)
    c2, d2 = _prod(b)
    if len(d1) + len(d2) > 60:
        d1 = {a: 1} if not isnum(a) else d1
        d2 = {b: 1} if not isnum(b) else d2
    for t, p in d2.items():
        d1[t] = d1.get(t, 0) + p
    return _unprod(c1 * c2, d1, sort)


def div(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        if b == 0:
            if a == 0 or a != a:
                return float('nan')
            return math.copysign(float('inf'), a)
        return a / b
    if isnum(b):
        if b == 0:
            return mk('div', (a, b), 'f')
        r = mul(a, 1.0 / b)
        return r
    c2, d2 = _prod(b)
    c1, d1 = _prod(a)
    for t, p in d2.items():
        d1[t] = d1.get(t, 0) - p
    if c2 == 0:
        return mk('div', (a, b), 'f')
    r = _unprod(c1 / c2, d1, 'f')
    return r


def power(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        try:
            r = a ** b
            return r if not isinstance(r, complex) else float('nan')
        except ZeroDivisionError:
            return float('inf')
        except OverflowError:
            return float('inf')
    if isnum(b):
        if b == 0:
            return 1.0 if sort_of(a) == 'f' else 1
        if b == 1:
            return a
        if isinstance(b, float) and b == int(b) and abs(b) < 50:
            b = int(b)
        if isinstance(b, int):
            c, d = _prod(a)
            if b > 0 or c != 0:
                s = 'f' if (b < 0 or sort_of(a) == 'f') else 'i'
                return _unprod(c ** b if b > 0 else float(c) ** b,
                               {t: p * b for t, p in d.items()}, s)
        return mk('pow', (a, b), 'f')
    return mk('powt', (a, b), _nsort(a, b))


def sqrt(a):
    a = _num(a)
    if isnum(a):
        return math.sqrt(a) if a >= 0 else float('nan')
    return mk('sqrt', (a,), 'f')


_UN = {}


def _fold1(name, f):
    def g(a):
        a = _num(a)
        if isnum(a):
            try:
                return f(a)
            except (ValueError, OverflowError):
                return float('nan')
        return mk(name, (a,), 'f')
    _UN[name] = g
    return g


sin = _fold1('sin', math.sin)
cos = _fold1('cos', math.cos)
tan = _fold1('tan', math.tan)
asin = _fold1('asin', math.asin)
acos = _fold1('acos', math.acos)
atan = _fold1('atan', math.atan)
exp = _fold1('exp', math.exp)
log = _fold1('log', math.log)
sinh = _fold1('sinh', math.sinh)
cosh = _fold1('cosh', math.cosh)
tanh = _fold1('tanh', math.tanh)


def atan2(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return math.atan2(a, b)
    return mk('atan2', (a, b), 'f')


def absv(a):
    a = _num(a)
    if isnum(a):
        return abs(a)
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == 'scale':
        return mul(abs(a.args[0]), absv(a.args[1]))
    return mk('abs', (a,), a.sort)


def floor(a):
    a = _num(a)
    if isnum(a):
        return math.floor(a) if math.isfinite(a) else a
    if a.sort == 'i':
        return a
    return mk('floor', (a,), 'i')


def ceil(a):
    a = _num(a)
    if isnum(a):
        return math.ceil(a)
    if a.sort == 'i':
        return a
    return mk('ceil', (a,), 'i')


def trunc(a):
    a = _num(a)
    if isnum(a):
        return math.trunc(a)
    if a.sort == 'i':
        return a
    return mk('trunc', (a,), 'i')


def rnd(a, nd=0):
    """round half to even to nd digits; int result when nd is None"""
    a = _num(a)
    if isnum(a):
        return round(a) if nd is None else round(float(a), nd)
    if a.sort == 'i' and (nd is None or nd >= 0):
        return a
    return mk('round', (a, 0 if nd is None else nd), 'i' if nd is None else 'f')


def mod(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return a % b if b != 0 else float('nan')
    return mk('mod', (a, b), _nsort(a, b))


def floordiv(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return a // b if b != 0 else float('nan')
    return mk('floordiv', (a, b), _nsort(a, b))


def fmod(a, b):
    if isnum(a) and isnum(b):
        return math.fmod(a, b)
    return mk('fmod', (_num(a), _num(b)), 'f')


def minimum(a, b):
    if isconst(a) and isconst(b):
        return min(a, b)
    if a is b:
        return a
    if isinstance(b, Term) and (not isinstance(a, Term) or a.id > b.id):
        a, b = b, a
    return mk('min', (_num(a), _num(b)), _nsort(a, b))


def maximum(a, b):
    if isconst(a) and isconst(b):
        return max(a, b)
    if a is b:
        return a
    if isinstance(b, Term) and (not isinstance(a, Term) or a.id > b.id):
        a, b = b, a
    return mk('max', (_num(a), _num(b)), _nsort(a, b))


def sign(a):
    if isnum(a):
        return (a > 0) - (a < 0)
    return mk('sign', (_num(a),), sort_of(a))


# ------------------------------------------------------------- booleans
def lt(a, b):
    a, b = _num(a), _num(b)
    if isnum(a) and isnum(b):
        return a < b
    if a is b:
        return False
    d = sub(a, b)
    if isnum(d):
        return d < 0
    return mk('lt', (a, b), 'b')


def le(a, b):
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return not_(lt(a, b))


def eq(a, b):
    if isconst(a) and isconst(b):
        return a == b
    if a is b:
        return True
    sa, sb = sort_of(a), sort_of(b)
    if sa in 'fib' and sb in 'fib':
        if sa == 'b' and sb == 'b':
            if isconst(a):
                a, b = b, a
            if isconst(b):
                return a if b else not_(a)
        d = sub(a, b)
        if isnum(d):
            return d == 0
    elif (sa == 's') != (sb == 's'):
        return False
    if isconst(a) or (isinstance(b, Term) and isinstance(a, Term) and b.id < a.id):
        a, b = b, a
    return mk('eq', (a, b), 'b')


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if not isinstance(a, Term):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (tobool(a),), 'b')


def tobool(a):
    if not isinstance(a, Term):
        return bool(a)
    if a.sort == 'b':
        return a
    if a.sort == 's':
        return not_(eq(a, ''))
    return not_(eq(a, 0))


def _flat(op, xs):
    out = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, Term) and x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def and_(*xs):
    out = {}
    for x in _flat('and', xs):
        if x is False:
            return False
        if x is True:
            continue
        out[x.id] = x
    for x in out.values():
        n = not_(x)
        if n.id in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out.values()))
    return mk('and', [out[i] for i in sorted(out)], 'b')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isconst(a) and isconst(b) and type(a) == type(b) and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    sa, sb = sort_of(a), sort_of(b)
    if sa == 'b' and sb == 'b':
        if a is True and b is False:
            return c
        if a is False and b is True:
            return not_(c)
        s = 'b'
    elif sa in 'fib' and sb in 'fib':
        s = 'f' if 'f' in (sa, sb) else ('i' if 'i' in (sa, sb) else 'b')
    else:
        s = sa if sa == sb else 'o'
    return mk('ite', (c, a, b), s)


# ------------------------------------------------------------- lists / axes
def length(axis):
    return mk('len', (axis,), 'i', axes=axis.parent or ())


def pos(axis):
    return mk('pos', (axis,), 'i', axes=[axis.root])


def reduce_(kind, axis, elem, cond=True):
    """kind: sum prod max min any all count mean; over the elements of axis
    (restricted to cond)."""
    c = cond
    a = axis
    while a.base is not None:
        c = and_(c, a.cond)
        a = a.base
    if kind in ('any', 'all'):
        e = tobool(elem)
        if kind == 'any':
            if e is False or c is False:
                return False
        elif e is True or c is False:
            return True
    s = {'any': 'b', 'all': 'b', 'count': 'i', 'mean': 'f'}.get(kind, sort_of(elem))
    if s == 'b' and kind in ('sum', 'prod'):
        s = 'i'
    ax = (_axes_of((elem, c)) - {a}) | frozenset(a.parent or ())
    return mk('red', (kind, a, elem, c), s, axes=ax)


def first(axis, cond, val):
    """val at the first element of axis that satisfies cond."""
    if isconst(val):
        return val
    a = axis.root
    return mk('first', (a, cond, val), sort_of(val),
              axes=(_axes_of((val, cond)) - {a}) | frozenset(a.parent or ()))


def at(axis, index, val):
    """val of the element of axis at position index."""
    if isconst(val):
        return val
    a = axis.root
    if a not in _axes_of((val,)):
        return val
    return mk('at', (a, index, val), sort_of(val),
              axes=(_axes_of((val,)) - {a}) | _axes_of((index,)) | frozenset(a.parent or ()))


class Loop:
    """A while loop over scalars: vars (symbols), init, cond, update terms."""
    def __init__(self, vars, init, cond, update, site):
        self.vars, self.init, self.cond, self.update, self.site = vars, init, cond, update, site


def loopout(loop, j):
    ax = _axes_of(tuple(loop.init)) | _axes_of(tuple(loop.update))
    return mk('loop', (loop, j), sort_of(loop.update[j]), axes=ax)


def opaque(name, args, sort='f'):
    return mk('opq', (name,) + tuple(args), sort)


def ufunc(name, args, sort):
    return mk('uf', (name,) + tuple(args), sort)


# ------------------------------------------------------------- strings
def cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, Term) and x.op == 'cat':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        elif x != '' or isinstance(x, Term):
            res.append(x)
    if not res:
        return ''
    if len(res) == 1:
        return res[0]
    return mk('cat', res, 's')


# ------------------------------------------------------------- traversal
def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.args)
        elif isinstance(x, Loop):
            stack.extend(list(x.init) + list(x.update) + [x.cond])


def subst(t, m, memo=None):
    """Replace terms (keys of m, by identity) in t."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    if t.id in memo:
        return memo[t.id]
    new = [subst(a, m, memo) for a in t.args]
    if all(x is y for x, y in zip(new, t.args)):
        r = t
    else:
        r = rebuild(t, new)
    memo[t.id] = r
    return r


def rebuild(t, a):
    op = t.op
    if op == 'add':
        r = a[0]
        for x, k in a[1]:
            r = add(r, mul(k, x))
        return r
    if op == 'scale':
        return mul(a[0], a[1])
    if op == 'prod':
        r = 1
        for x, p in a[0]:
            r = mul(r, power(x, p))
        return r
    if op in ('pow', 'powt'):
        return power(a[0], a[1])
    if op == 'tofloat':
        return cast_f(a[0])
    f = {'lt': lt, 'eq': eq, 'not': not_, 'ite': ite, 'mod': mod, 'floordiv': floordiv,
         'min': minimum, 'max': maximum, 'atan2': atan2, 'abs': absv, 'floor': floor,
         'ceil': ceil, 'trunc': trunc, 'sqrt': sqrt, 'sign': sign, 'div': div}.get(op)
    if f:
        return f(*a)
    if op == 'and':
        return and_(*a)
    if op == 'cat':
        return cat(*a)
    if op in _UN:
        return _UN[op](*a)
    if op == 'red':
        return reduce_(a[0], a[1], a[2], a[3])
    if op == 'first':
        return first(*a)
    if op == 'at':
        return at(*a)
    return mk(op, a, t.sort, axes=None)


def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, Term):
        return repr(t) if not isinstance(t, float) else '%.12g' % t
    if depth > 6:
        return '…'
    d = depth + 1
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'add':
        s = ' + '.join(show(x, d) if k == 1 else '%s*%s' % (show(k), show(x, d)) for x, k in t.args[1])
        return '(' + s + ('' if t.args[0] == 0 else ' + ' + show(t.args[0])) + ')'
    if t.op == 'scale':
        return '%s*%s' % (show(t.args[0]), show(t.args[1], d))
    if t.op == 'prod':
        return '*'.join(show(x, d) if p == 1 else '%s^%s' % (show(x, d), p) for x, p in t.args[0])
    if t.op == 'pow':
        return '%s^%s' % (show(t.args[0], d), t.args[1])
    if t.op == 'lt':
        return '(%s < %s)' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'eq':
        return '(%s == %s)' % (show(t.args[0], d), show(t.args[1], d))
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))


# ------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


class Env:
    """Valuations.  Arrays have one leading dimension of valuations and one
    dimension per axis.  `syms` maps symbol names to arrays already laid out
    with len(axes)+1 dims; `lens` maps list-axis names to arrays of lengths."""

    def __init__(self, axes, sizes, nval):
        self.axes = {a.name: i + 1 for i, a in enumerate(axes)}
        self.axlist = list(axes)
        self.sizes = dict(sizes)
        self.nval = nval
        self.nd = 1 + len(axes)
        self.syms = {}
        self.lens = {}
        self.ufs = {}
        self.memo = {}

    def shape(self, axes=()):
        s = [self.nval] + [1] * (self.nd - 1)
        for a in axes:
            s[self.axes[a.name]] = self.sizes[a.name]
        return tuple(s)

    def bind(self, term, arr):
        """arr of shape (nval, *sizes of term.axes in env order)"""
        axs = sorted(term.axes, key=lambda a: self.axes[a.name])
        arr = np.asarray(arr)
        self.syms[term.id] = arr.reshape(self.shape(axs))

    def get(self, t):
        if t.id in self.syms:
            return self.syms[t.id]
        raise EvalError('unbound symbol %r' % (t,))


def _present(env, axis):
    p = env.axes[axis.name]
    n = env.sizes[axis.name]
    ar = np.arange(n).reshape([1] * p + [n] + [1] * (env.nd - p - 1))
    L = env.lens.get(axis.name)
    if L is None:
        return np.ones_like(ar, dtype=bool)
    return ar < L


def evaluate(t, env):
    memo = env.memo
    if isinstance(t, (int, float, bool, str)):
        return np.array(t, dtype=object if isinstance(t, str) else None).reshape((1,) * env.nd)
    if not isinstance(t, Term):
        raise EvalError('cannot evaluate %r' % (t,))
    r = memo.get(t.id)
    if r is None:
        with np.errstate(all='ignore'):
            r = _ev(t, env)
        memo[t.id] = r
    return r


_NP1 = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos,
        'atan': np.arctan, 'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'abs': np.abs,
        'sign': np.sign, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh}


def _toint(x):
    return x   # integers are carried as float64: exact to 2**53


def _ev(t, env):
    op = t.op
    A = t.args
    E = lambda x: evaluate(x, env)
    if op == 'sym':
        return env.get(t)
    if t.id in env.syms:
        return env.syms[t.id]
    if op == 'add':
        r = E(A[0]).astype(float) if not isinstance(A[0], Term) else E(A[0])
        for x, k in A[1]:
            v = E(x)
            r = r + (v if k == 1 else k * v)
        return r
    if op == 'scale':
        return A[0] * E(A[1])
    if op == 'prod':
        r = 1.0
        for x, p in A[0]:
            v = E(x).astype(float)
            r = r * (v if p == 1 else v ** p)
        return r
    if op in ('pow', 'powt'):
        return E(A[0]).astype(float) ** E(A[1])
    if op == 'div':
        return E(A[0]) / E(A[1])
    if op == 'tofloat':
        return E(A[0]).astype(float)
    if op in _NP1:
        return _NP1[op](E(A[0]).astype(float))
    if op == 'isnan':
        return np.isnan(E(A[0]).astype(float))
    if op == 'isfinite':
        return np.isfinite(E(A[0]).astype(float))
    if op == 'f32':
        return E(A[0]).astype(np.float32).astype(float)
    if op == 'atan2':
        return np.arctan2(E(A[0]).astype(float), E(A[1]).astype(float))
    if op == 'floor':
        return np.floor(E(A[0]))
    if op == 'ceil':
        return np.ceil(E(A[0]))
    if op == 'trunc':
        return np.trunc(E(A[0]))
    if op == 'round':
        return np.round(E(A[0]).astype(float), A[1])
    if op == 'mod':
        return np.mod(E(A[0]).astype(float), E(A[1]))
    if op == 'fmod':
        return np.fmod(E(A[0]).astype(float), E(A[1]))
    if op == 'floordiv':
        return np.floor_divide(E(A[0]).astype(float), E(A[1]))
    if op == 'min':
        return np.minimum(E(A[0]), E(A[1]))
    if op == 'max':
        return np.maximum(E(A[0]), E(A[1]))
    if op == 'lt':
        return E(A[0]) < E(A[1])
    if op == 'eq':
        x, y = E(A[0]), E(A[1])
        return np.asarray(x == y)
    if op == 'not':
        return np.logical_not(E(A[0]).astype(bool))
    if op == 'and':
        r = E(A[0]).astype(bool)
        for x in A[1:]:
            r = r & E(x).astype(bool)
        return r
    if op == 'ite':
        a, b = E(A[1]), E(A[2])
        if a.dtype == object or b.dtype == object:
            a, b = a.astype(object), b.astype(object)
        return np.where(E(A[0]).astype(bool), a, b)
    if op == 'len':
        L = env.lens.get(A[0].name)
        if L is not None:
            return L
        return np.array(env.sizes[A[0].root.name]).reshape((1,) * env.nd)
    if op == 'pos':
        a = A[0].root
        p = env.axes[a.name]
        n = env.sizes[a.name]
        return np.arange(n).reshape([1] * p + [n] + [1] * (env.nd - p - 1))
    if op == 'red':
        kind, a, elem, cond = A
        p = env.axes[a.name]
        e = E(elem)
        m = E(cond).astype(bool) & _present(env, a)
        e, m = np.broadcast_arrays(e, m)
        if e.shape[p] == 1 and env.sizes[a.name] != 1:
            raise EvalError('axis lost')
        if kind == 'any':
            return np.any(e.astype(bool) & m, axis=p, keepdims=True)
        if kind == 'all':
            return np.all(e.astype(bool) | ~m, axis=p, keepdims=True)
        if kind == 'count':
            return np.sum(m, axis=p, keepdims=True)
        e = e.astype(float)
        if kind == 'sum':
            return np.sum(np.where(m, e, 0), axis=p, keepdims=True)
        if kind == 'prod':
            return np.prod(np.where(m, e, 1), axis=p, keepdims=True)
        if kind == 'mean':
            return np.sum(np.where(m, e, 0), axis=p, keepdims=True) / np.sum(m, axis=p, keepdims=True)
        if kind == 'max':
            return np.max(np.where(m, e, -np.inf), axis=p, keepdims=True)
        if kind == 'min':
            return np.min(np.where(m, e, np.inf), axis=p, keepdims=True)
        if kind in ('argmin', 'argmax'):
            e = np.where(m, e, np.inf if kind == 'argmin' else -np.inf)
            f = np.argmin if kind == 'argmin' else np.argmax
            return np.expand_dims(f(e, axis=p), p)
        raise EvalError('reduce ' + kind)
    if op == 'first':
        a, cond, val = A
        p = env.axes[a.name]
        m = E(cond).astype(bool) & _present(env, a)
        v = E(val)
        sh = np.broadcast_shapes(m.shape, v.shape)
        m = np.broadcast_to(m, sh)
        v = np.broadcast_to(v, sh)
        k = np.expand_dims(np.argmax(m, axis=p), p)
        return np.take_along_axis(v, k, axis=p)
    if op == 'at':
        a, ix, val = A
        p = env.axes[a.name]
        v = E(val)
        k = E(ix)
        n = env.sizes[a.name]
        L = env.lens.get(a.name)
        LL = n if L is None else L
        k = np.where(k < 0, k + LL, k)
        k = np.clip(k, 0, n - 1).astype(int)
        if a in _axes_of((ix,)):
            raise EvalError('index depends on its own axis')
        vs, ks = list(v.shape), list(k.shape)
        vs[p] = n
        sh = list(np.broadcast_shapes(tuple(x if i != p else 1 for i, x in enumerate(vs)), tuple(ks)))
        kb = np.broadcast_to(k, sh)
        sh2 = list(sh); sh2[p] = n
        vb = np.broadcast_to(v, sh2)
        return np.take_along_axis(vb, kb, axis=p)
    if op == 'loop':
        return _ev_loop(A[0], env)[A[1]]
    if op == 'uf' or op == 'opq':
        f = env.ufs.get(A[0])
        if f is None:
            raise EvalError('uninterpreted %s' % A[0])
        return f(*[E(x) for x in A[1:]])
    if op == 'cat':
        r = E(A[0]).astype(object)
        for x in A[1:]:
            r = r + E(x).astype(object)
        return r
    if op == 'str':
        return np.frompyfunc(lambda x: _pystr(x, t.args[0]), 1, 1)(E(A[0]))
    if op == 'repr':
        return np.frompyfunc(lambda x: repr(_py(x, t.args[0])), 1, 1)(E(A[0]))
    if op == 'strlen':
        return np.frompyfunc(len, 1, 1)(E(A[0])).astype(float)
    if op == 'fmt%':
        f = A[0]
        if isinstance(f, Term):
            return np.frompyfunc(lambda x, q: q % _py(x, A[1]), 2, 1)(E(A[1]), E(f))
        return np.frompyfunc(lambda x: f % _py(x, A[1]), 1, 1)(E(A[1]))
    if op == 'format':
        f = A[0]
        if isinstance(f, Term):
            return np.frompyfunc(lambda x, q: format(_py(x, A[1]), q), 2, 1)(E(A[1]), E(f))
        return np.frompyfunc(lambda x: format(_py(x, A[1]), f), 1, 1)(E(A[1]))
    if op == 'strm':
        name = A[0]
        def call(s, *r):
            r = [int(x) if isinstance(x, (float, np.floating, np.integer)) else x for x in r]
            return getattr(s, name)(*r)
        return np.frompyfunc(call, len(A) - 1, 1)(*[E(x).astype(object) for x in A[1:]])
    if op == 'strrep':
        return np.frompyfunc(lambda s, n: s * int(n), 2, 1)(E(A[0]).astype(object), E(A[1]))
    raise EvalError('cannot evaluate op ' + op)


def _py(x, term):
    s = sort_of(term)
    if isinstance(x, (np.generic,)):
        x = x.item()
    if s == 'i' and isinstance(x, float):
        return int(x)
    if s == 'f' and isinstance(x, int) and not isinstance(x, bool):
        return float(x)
    return x


def _pystr(x, term):
    return str(_py(x, term))


_LOOPMEMO = {}


def _ev_loop(loop, env):
    key = ('loop', id(loop))
    if key in env.memo:
        return env.memo[key]
    vals = [evaluate(i, env) for i in loop.init]
    sub_env = Env.__new__(Env)
    sub_env.__dict__.update(env.__dict__)
    for it in range(400):
        sub_env.memo = {}
        sub_env.syms = dict(env.syms)
        for v, x in zip(loop.vars, vals):
            sub_env.syms[v.id] = x
        c = evaluate(loop.cond, sub_env).astype(bool)
        if not c.any():
            break
        new = [evaluate(u, sub_env) for u in loop.update]
        vals = [np.where(c, n, x) for n, x in zip(new, vals)]
    else:
        vals = [np.where(c, np.nan, x) for x in vals]
    env.memo[key] = vals
    return vals


# ------------------------------------------------------------- intervals
def interval(t, dom=None, memo=None):
    """Interval abstraction of a numeric term: (lo, hi, hi_open)."""
    dom = dom or {}
    memo = {} if memo is None else memo
    inf = float('inf')
    if isnum(t) or isinstance(t, bool):
        return (float(t), float(t), False)
    if not isinstance(t, Term):
        return (-inf, inf, False)
    if t.id in memo:
        return memo[t.id]
    I = lambda x: interval(x, dom, memo)
    r = (-inf, inf, False)
    op, A = t.op, t.args
    if t in dom:
        r = dom[t]
    elif op == 'mod' and isnum(A[1]) and A[1] > 0:
        r = (0.0, float(A[1]), True)
    elif op == 'scale':
        lo, hi, o = I(A[1])
        k = A[0]
        r = (k * lo, k * hi, o) if k > 0 else (k * hi, k * lo, False)
    elif op == 'add':
        lo = hi = A[0]
        o = False
        for x, k in A[1]:
            l2, h2, o2 = I(x)
            if k < 0:
                l2, h2, o2 = h2, l2, False
            lo, hi, o = lo + k * l2, hi + k * h2, o or o2
        r = (lo, hi, o)
    elif op in ('sin', 'cos'):
        r = (-1.0, 1.0, False)
    elif op == 'acos':
        r = (0.0, math.pi, False)
    elif op in ('asin', 'atan'):
        r = (-math.pi / 2, math.pi / 2, False)
    elif op == 'atan2':
        r = (-math.pi, math.pi, False)
    elif op in ('abs', 'sqrt'):
        lo, hi, _ = I(A[0])
        r = (0.0, max(abs(lo), abs(hi)) if op == 'abs' else inf, False)
    elif op == 'pow' and isinstance(A[1], int) and A[1] % 2 == 0:
        r = (0.0, inf, False)
    elif op == 'ite':
        a, b = I(A[1]), I(A[2])
        hi = max(a[1], b[1])
        r = (min(a[0], b[0]), hi, all(x[2] for x in (a, b) if x[1] == hi))
    elif op == 'min':
        a, b = I(A[0]), I(A[1])
        m = min((a[1], not a[2]), (b[1], not b[2]))
        r = (min(a[0], b[0]), m[0], not m[1])
    elif op == 'max':
        a, b = I(A[0]), I(A[1])
        hi = max(a[1], b[1])
        r = (max(a[0], b[0]), hi, all(x[2] for x in (a, b) if x[1] == hi))
    elif op == 'tofloat':
        r = I(A[0])
    elif op == 'len' or op == 'pos':
        r = (0.0, inf, False)
    memo[t.id] = r
    return r
