"""Models of the Python builtins and of the standard library used by celest."""
import collections
import datetime
import math
import os
import numpy as _np
from . import terms as T
from .terms import Term
from .values import *

NATIVE = {}
BUILTINS = {}


def _nat(name, *bases, py=None):
    c = NativeClass(name, [NATIVE[b] for b in bases], py)
    NATIVE[name] = c
    return c


_nat('object')
_nat('BaseException', 'object')
_nat('Exception', 'BaseException')
for _n, _b in [('StopIteration', 'Exception'), ('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'),
               ('OverflowError', 'ArithmeticError'), ('FloatingPointError', 'ArithmeticError'),
               ('AssertionError', 'Exception'), ('AttributeError', 'Exception'),
               ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'), ('LookupError', 'Exception'),
               ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('NameError', 'Exception'),
               ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'),
               ('FileExistsError', 'OSError'), ('PermissionError', 'OSError'),
               ('RuntimeError', 'Exception'), ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'),
               ('TypeError', 'Exception'), ('ValueError', 'Exception'), ('UnicodeError', 'ValueError'),
               ('UnicodeDecodeError', 'UnicodeError'), ('UnicodeEncodeError', 'UnicodeError'), ('MemoryError', 'Exception'),
               ('Warning', 'Exception'), ('UserWarning', 'Warning'), ('DeprecationWarning', 'Warning'),
               ('RuntimeWarning', 'Warning'), ('FutureWarning', 'Warning'), ('KeyboardInterrupt', 'BaseException'),
               ('SystemExit', 'BaseException'), ('GeneratorExit', 'BaseException')]:
    _nat(_n, _b)
NATIVE['IOError'] = NATIVE['EnvironmentError'] = NATIVE['OSError']
for _n in ('float', 'int', 'complex', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset', 'range', 'type',
           'slice', 'NoneType', 'function', 'ndarray', 'module', 'iterator', 'memoryview', 'generic', 'property',
           'Enum', 'ABC', 'Generic', 'Protocol', 'date', 'timedelta', 'deque', 'partial', 'builtin', 'lock'):
    _nat(_n, 'object')
_nat('bool', 'int')
_nat('IntEnum', 'Enum', 'int')
_nat('Flag', 'Enum')
_nat('IntFlag', 'Flag', 'int')
_nat('StrEnum', 'Enum', 'str')
_nat('datetime', 'date')
_nat('timezone', 'object')
_nat('OrderedDict', 'dict')
_nat('defaultdict', 'dict')
_nat('Counter', 'dict')
_nat('number', 'generic')
_nat('integer', 'number')
_nat('signedinteger', 'integer')
_nat('inexact', 'number')
_nat('floating', 'inexact')
_nat('complexfloating', 'inexact')
_nat('float64', 'floating', 'float')
_nat('float32', 'floating')
_nat('int64', 'signedinteger')
_nat('bool_', 'generic')
_nat('str_', 'generic', 'str')
_nat('object_', 'generic')
_nat('Number', 'object')
_nat('Real', 'Number')
_nat('Integral', 'Real')
_nat('Iterable', 'object')
_nat('Sequence', 'Iterable')
_nat('Iterator', 'Iterable')
_nat('Callable', 'object')
_nat('Sized', 'object')
_nat('Mapping', 'object')
_nat('LinAlgError', 'ValueError')


class StopGen(Exception):
    pass


def init(I):
    I.heap_files = {}


# ------------------------------------------------------------------ helpers
def isstr(v):
    return isinstance(v, str) or (isinstance(v, Term) and v.sort == 's')


def isscalar(v):
    return isinstance(v, (int, float)) or (isinstance(v, Term) and v.sort in 'fib')


def unwrap(I, v):
    """0-d arrays as scalars."""
    if isinstance(v, Arr) and v.ndim == 0:
        return I.np.item(I, v)
    if isinstance(v, EnumV) and any(x.name in ('IntEnum', 'IntFlag') for x in v.cls.mro):
        return v.value
    return v


def fnum(I, v, what='argument'):
    """v as a real scalar (math functions)."""
    if isinstance(v, Arr):
        if I.np.size_const(v) == 1:
            return I.np.get1(I, v)
        I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
    v = unwrap(I, v)
    if isscalar(v):
        return v
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__float__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
    I.throw('TypeError', 'must be real number')


def intval(I, v):
    v = unwrap(I, v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int) or (isinstance(v, Term) and v.sort in 'ib'):
        return v
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__index__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
    I.throw('TypeError', 'object cannot be interpreted as an integer')


def concretize(I, t, lo, hi, what='index'):
    """Concrete value of an integer term in lo..hi (splits the trace)."""
    if isinstance(t, int):
        return t
    if hi - lo > 64:
        raise Unsupported('symbolic %s over a wide range at %s' % (what, I.site))
    for k in range(lo, hi + 1):
        if I.decide(T.eq(t, k)):
            return k
    return None


def tname(I, v):
    t = type_(I, v)
    return t.name if hasattr(t, 'name') else repr(t)


def type_(I, v):
    if v is None:
        return NATIVE['NoneType']
    s = T.sort_of(v) if T.isconst(v) or isinstance(v, Term) else None
    if s == 'b':
        return NATIVE['bool']
    if s == 'i':
        return NATIVE['int']
    if s == 'f':
        return NATIVE['float']
    if s == 's':
        return NATIVE['str']
    if isinstance(v, tuple):
        return getattr(v, 'ntcls', None) or NATIVE['tuple']
    if isinstance(v, range):
        return NATIVE['range']
    if isinstance(v, Arr):
        if v.mem:
            return NATIVE['memoryview']
        if v.ndim == 0 and not v.zero:
            return NATIVE[I.np.NAMES[I.heap[v.buf].dtype]]
        return NATIVE['ndarray']
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ObjCell):
            return c.cls
        if isinstance(c, ListCell):
            return NATIVE[{'list': 'list', 'set': 'set', 'deque': 'deque', 'frozenset': 'frozenset'}[c.kind]]
        if isinstance(c, DictCell):
            return NATIVE[getattr(c, 'kind', 'dict')]
    if isinstance(v, EnumV):
        return v.cls
    if isinstance(v, (ClassV, NativeClass)):
        return NATIVE['type']
    if isinstance(v, (FuncV, BoundV)):
        return NATIVE['function']
    if isinstance(v, BuiltinV):
        return NATIVE['builtin']
    if isinstance(v, OpaqueV) and v.cls is not None:
        return v.cls
    if isinstance(v, SliceV):
        return NATIVE['slice']
    return NATIVE['object']


_ABC = {'Number': ('int', 'float', 'complex', 'number'), 'Real': ('int', 'float', 'float64', 'int64', 'integer', 'floating'),
        'Integral': ('int', 'integer'), 'Iterable': ('list', 'tuple', 'dict', 'set', 'str', 'ndarray', 'range', 'deque', 'iterator'),
        'Sequence': ('list', 'tuple', 'str', 'range'), 'Callable': ('function', 'builtin', 'type'),
        'Sized': ('list', 'tuple', 'dict', 'set', 'str', 'ndarray', 'range'), 'Mapping': ('dict',), 'Iterator': ('iterator',)}


def _classes(I, c):
    if isinstance(c, tuple):
        out = []
        for x in c:
            out.extend(_classes(I, x))
        return out
    k = as_class(I, c)
    return [k] if k is not None else []


def isinstance_(I, v, cls):
    t = type_(I, v)
    mro = getattr(t, 'mro', [t])
    for c in _classes(I, cls):
        if c in mro or c is NATIVE['object']:
            return True
        if c.name in _ABC and isinstance(c, NativeClass):
            names = [m.name for m in mro if isinstance(m, NativeClass)]
            if any(n in names for n in _ABC[c.name]):
                return True
            if c.name == 'Iterable' and isinstance(t, ClassV) and t.has('__iter__'):
                return True
            if c.name == 'Sized' and isinstance(t, ClassV) and t.has('__len__'):
                return True
            if c.name == 'Callable' and isinstance(t, ClassV) and t.has('__call__'):
                return True
        if c is NATIVE['Enum'] and isinstance(v, EnumV):
            return True
    return False


def as_class(I, b):
    if isinstance(b, (ClassV, NativeClass)):
        return b
    if b is None:
        return NATIVE['NoneType']
    if isinstance(b, BuiltinV) and b.name in NATIVE:
        return NATIVE[b.name]
    if isinstance(b, LibV):
        n = b.path.split('.')[-1]
        alias = {'float_': 'float64', 'double': 'float64', 'int_': 'int64', 'intp': 'int64', 'int32': 'int64',
                 'bool8': 'bool_', 'bool': 'bool_'}
        n = alias.get(n, n)
        if n in NATIVE:
            return NATIVE[n]
        return NativeClass('lib:' + b.path, [NATIVE['object']])
    if isinstance(b, OpaqueV):
        if b.name.startswith('typing.Named'):
            raise Unsupported('typing.NamedTuple')
        if b.cls is not None and b.name.startswith('class:'):
            return b.cls
        n = b.name.split('.')[-1]
        return NATIVE.get(n)
    if isinstance(b, DTypeV):
        return NATIVE[I.np.NAMES[b.name]]
    if isinstance(b, tuple):
        return b
    I.throw('TypeError', 'arg must be a class')


def is_(I, a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Term) or isinstance(b, Term):
        x, y = (a, b) if isinstance(a, Term) else (b, a)
        if x.sort == 'b' and isinstance(y, bool):
            return T.eq(x, y)
        if isinstance(y, Term) and y is x:
            return True
        if x.sort == 'o':
            return T.mk('eqo', (x, y if isinstance(y, Term) or T.isconst(y) else repr(y)), 'b')
        return False
    if T.isconst(a) and T.isconst(b):
        return type(a) == type(b) and a == b
    if isinstance(a, (BoundV, DTypeV)) and isinstance(b, type(a)):
        return a == b
    if isinstance(a, LibV) and isinstance(b, LibV):
        return a.path == b.path
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (BuiltinV, LibV)) and isinstance(y, NativeClass):
            return as_class(I, x) is y
    return False


def contains(I, c, x):
    """x in c"""
    if isstr(c):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return T.mk('strin', (x, c), 'b')
    if isinstance(c, range):
        x = unwrap(I, x)
        if isinstance(x, (int, float)):
            return x in c
        return T.or_(*[T.eq(x, k) for k in c])
    if isinstance(c, Ref):
        cc = I.cell(c)
        if isinstance(cc, ObjCell):
            m = cc.cls.lookup('__contains__')
            if m is not None:
                return I.truth(I.call(BoundV(m, c), [x], {}))
        if isinstance(cc, DictCell):
            return dict_find(I, cc, x) is not None
    if isinstance(c, DictView):
        if c.kind == 'keys':
            return dict_find(I, I.cell(c.ref), x) is not None
    if isinstance(c, NamespaceV):
        e = I.heap[c.env]
        return x in e.vars
    if isinstance(c, ClassV) and c.is_enum:
        return isinstance(x, EnumV) and x.cls is c
    if isinstance(c, Arr):
        return I.np.truth(I, I.np.call(I, 'any', [I.compare('eq', c, x)], {}))
    conds = []
    for y in iterate(I, c):
        if is_(I, y, x) is True:
            return True
        if isinstance(y, Arr) or isinstance(x, Arr):
            r = I.compare('eq', y, x)
            if I.truth(r):
                return True
            continue
        r = I.compare('eq', y, x)
        if isinstance(r, Term):
            conds.append(T.tobool(r))
        elif I.truth(r):
            return True
    return T.or_(*conds) if conds else False


class DictView:
    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind


# ------------------------------------------------------------------ iteration
def iterate(I, v):
    """Python generator over the items of v (live for lists and iterators)."""
    if isinstance(v, (tuple, range, str)):
        yield from list(v)
        return
    if isinstance(v, Arr):
        yield from I.np.iter_arr(I, v)
        return
    if isinstance(v, ClassV) and v.is_enum:
        yield from v.members
        return
    if isinstance(v, DictView):
        yield from dict_items(I, v)
        return
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListCell):
            k = 0
            while True:
                items = I.cell(v).items
                if k >= len(items):
                    return
                yield items[k]
                k += 1
        if isinstance(c, DictCell):
            n = len(c.d)
            for k in list(c.d):
                if len(I.cell(v).d) != n:
                    I.throw('RuntimeError', 'dictionary changed size during iteration')
                yield unkey(k)
            return
        if isinstance(c, ObjCell):
            if c.cls is NATIVE['iterator']:
                for k in range(100000):
                    r = iter_next(I, v)
                    if r is STOP:
                        return
                    yield r
                raise Unsupported('unbounded iterator')
            m = c.cls.lookup('__iter__')
            if m is not None:
                it = I.call(BoundV(m, v), [], {})
                if isinstance(it, Ref) and it.id == v.id or (I.is_obj(it) and isinstance(I.cell(it).cls, ClassV)
                                                            and I.cell(it).cls.lookup('__next__')):
                    nx = I.cell(it).cls.lookup('__next__')
                    if nx is None:
                        I.throw('TypeError', 'iter() returned non-iterator')
                    for k in range(400):
                        try:
                            r = I.call(BoundV(nx, it), [], {})
                        except Exception as e:
                            if type(e).__name__ == 'RaiseEx' and I.exc_name(e.value) == 'StopIteration':
                                return
                            raise
                        yield r
                    raise Diverge(I)
                if not (isinstance(it, Ref) or isinstance(it, (Arr, DictView))):
                    I.throw('TypeError', 'iter() returned non-iterator')
                if isinstance(it, Ref) and isinstance(I.cell(it), (ListCell, DictCell)) or isinstance(it, (Arr, DictView)):
                    I.throw('TypeError', 'iter() returned non-iterator')
                yield from iterate(I, it)
                return
            m = c.cls.lookup('__getitem__')
            if m is not None:
                for k in range(400):
                    try:
                        r = I.call(BoundV(m, v), [k], {})
                    except Exception as e:
                        if type(e).__name__ == 'RaiseEx' and I.exc_name(e.value) in ('IndexError', 'StopIteration'):
                            return
                        raise
                    yield r
                raise Diverge(I)
    if isinstance(v, OpaqueV) and 'iter' in v.methods:
        yield from iterate(I, v.methods['iter'](I))
        return
    if isinstance(v, Term) and v.sort == 's':
        raise Unsupported('iteration over a symbolic string at %s' % I.site)
    if isinstance(v, Term) and v.sort == 'o' or isinstance(v, OpaqueV):
        raise Unsupported('iteration over %r at %s' % (v, I.site))
    I.throw('TypeError', "'%s' object is not iterable" % tname(I, v))


class Diverge(Exception):
    """A loop that the analysis shows not to end."""
    def __init__(self, I):
        self.site = I.site


STOP = object()


def iter_next(I, it):
    c = I.cell(it)
    f = c.fields
    kind = f['kind']
    if kind == 'list':
        src = f['src']
        items = I.cell(src).items
        if f['pos'] >= len(items):
            return STOP
        r = items[f['pos']]
        I.wcell(it.id).fields['pos'] = f['pos'] + 1
        return r
    if kind == 'count':
        I.wcell(it.id).fields['cur'] = T.add(f['cur'], f['step'])
        return f['cur']
    if kind == 'repeat':
        return f['val']
    if kind == 'cycle':
        items = I.cell(f['src']).items
        if not items:
            return STOP
        I.wcell(it.id).fields['pos'] = f['pos'] + 1
        return items[f['pos'] % len(items)]
    # lazy combinators over source iterators
    if kind == 'enumerate':
        x = iter_next(I, f['src'])
        if x is STOP:
            return STOP
        n = I.cell(it).fields['n']
        I.wcell(it.id).fields['n'] = T.add(n, 1)
        return (n, x)
    if kind == 'zip':
        out = []
        for k, s in enumerate(f['srcs']):
            x = iter_next(I, s)
            if x is STOP:
                if f.get('strict') and k > 0:
                    I.throw('ValueError', 'zip() arguments have different lengths')
                if f.get('strict') and any(iter_next(I, q) is not STOP for q in f['srcs'][1:]):
                    I.throw('ValueError', 'zip() arguments have different lengths')
                return STOP
            out.append(x)
        return tuple(out) if f['srcs'] else STOP
    if kind == 'map':
        out = []
        for s in f['srcs']:
            x = iter_next(I, s)
            if x is STOP:
                return STOP
            out.append(x)
        return I.call(f['fn'], out, {})
    if kind == 'filter':
        while True:
            x = iter_next(I, f['src'])
            if x is STOP:
                return STOP
            v = x if f['fn'] is None else I.call(f['fn'], [x], {})
            if I.truth(v) != f.get('neg', False):
                return x
    if kind == 'takewhile':
        if I.cell(it).fields.get('done'):
            return STOP
        x = iter_next(I, f['src'])
        if x is STOP or not I.truth(I.call(f['fn'], [x], {})):
            I.wcell(it.id).fields['done'] = True
            return STOP
        return x
    if kind == 'obj':
        nx = I.cell(f['src']).cls.lookup('__next__')
        try:
            return I.call(BoundV(nx, f['src']), [], {})
        except Exception as e:
            if type(e).__name__ == 'RaiseEx' and I.exc_name(e.value) == 'StopIteration':
                return STOP
            raise
    raise Unsupported('iterator ' + kind)


def mk_it(I, **f):
    return I.alloc(ObjCell(NATIVE['iterator'], f))


def mkiter(I, v):
    """iter(v)"""
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ObjCell):
            if c.cls is NATIVE['iterator']:
                return v
            if isinstance(c.cls, ClassV):
                m = c.cls.lookup('__iter__')
                if m is not None:
                    r = I.call(BoundV(m, v), [], {})
                    if I.is_obj(r):
                        if I.cell(r).cls is NATIVE['iterator']:
                            return r
                        if I.cell(r).cls.lookup('__next__') is not None:
                            return mk_it(I, kind='obj', src=r)
                    I.throw('TypeError', 'iter() returned non-iterator')
        if isinstance(c, ListCell):
            return mk_it(I, kind='list', src=v, pos=0)
    items = list(iterate(I, v))
    return mk_it(I, kind='list', src=I.newlist(items), pos=0)


def as_list(I, v):
    """A list reference with the (remaining) items of v."""
    if isinstance(v, Ref) and isinstance(I.cell(v), ListCell):
        return v
    if isinstance(v, Ref) or isinstance(v, (tuple, range, Arr, str, DictView)) or isinstance(v, ClassV):
        return I.newlist(list(iterate(I, v)))
    return None


def tolist(I, v):
    return list(iterate(I, v))


# ------------------------------------------------------------------ dicts / sets
class K:
    """Wrapper for symbolic dictionary keys."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t.id) if isinstance(self.t, Term) else hash(self.t)

    def __eq__(self, o):
        return isinstance(o, K) and o.t is self.t


def key(I, v):
    v2 = unwrap(I, v)
    if isinstance(v2, Term):
        return K(v2)
    if isinstance(v2, float) and v2 == int(v2) if isinstance(v2, float) and math.isfinite(v2) else False:
        return int(v2)
    if T.isconst(v2) or v2 is None:
        return v2
    if isinstance(v2, tuple):
        return tuple(key(I, x) for x in v2)
    if isinstance(v2, Ref):
        c = I.cell(v2)
        if isinstance(c, ObjCell):
            if isinstance(c.cls, ClassV) and not c.cls.has('__hash__'):
                for k in c.cls.mro:
                    if '__hash__' in k.ns:
                        break
                    if '__eq__' in k.ns and isinstance(k, ClassV):
                        I.throw('TypeError', 'unhashable type: ' + c.cls.name)
            return v2
        I.throw('TypeError', 'unhashable type: ' + tname(I, v))
    if isinstance(v2, Arr):
        I.throw('TypeError', 'unhashable type: numpy.ndarray')
    return v2


def unkey(k):
    if isinstance(k, K):
        return k.t
    if isinstance(k, tuple):
        return tuple(unkey(x) for x in k)
    return k


def _symkey(k):
    return isinstance(k, K) or isinstance(k, tuple) and any(_symkey(x) for x in k)


def dict_find(I, c, k):
    """The stored key equal to k, or None."""
    k = key(I, k)
    if k in c.d:
        return (k,)
    for q in list(c.d):
        if _symkey(q) or _symkey(k) or (isinstance(q, Ref) and isinstance(k, Ref) and
                                        isinstance(I.cell(q), ObjCell) and isinstance(I.cell(q).cls, ClassV)
                                        and I.cell(q).cls.has('__eq__')):
            if I.truth(I.compare('eq', unkey(q), unkey(k))):
                return (q,)
    return None


def dict_items(I, v):
    c = I.cell(v.ref)
    if v.kind == 'keys':
        return [unkey(k) for k in c.d]
    if v.kind == 'values':
        return list(c.d.values())
    return [(unkey(k), x) for k, x in c.d.items()]


def set_add(I, r, v):
    key(I, v)
    if I.truth(contains(I, r, v)):
        return
    I.list_append(r, v)


def set_compare(I, op, a, b):
    xs, ys = I.cell(a).items, I.cell(b).items
    sub = lambda p, q: all(I.truth(contains(I, q, x)) for x in p)
    if op == 'le':
        return sub(xs, b)
    if op == 'ge':
        return sub(ys, a)
    if op == 'lt':
        return len(xs) < len(ys) and sub(xs, b)
    if op == 'gt':
        return len(xs) > len(ys) and sub(ys, a)
    return len(xs) == len(ys) and sub(xs, b)


def container_eq(I, a, b):
    ca, cb = I.cell(a), I.cell(b)
    if a.id == b.id:
        return True
    if isinstance(ca, ListCell) and isinstance(cb, ListCell):
        if (ca.kind in ('set', 'frozenset')) != (cb.kind in ('set', 'frozenset')):
            return False
        if ca.kind in ('set', 'frozenset'):
            return set_compare(I, 'eq', a, b)
        if ca.kind != cb.kind:
            return False
        return seq_compare(I, 'eq', ca.items, cb.items)
    if isinstance(ca, DictCell) and isinstance(cb, DictCell):
        if len(ca.d) != len(cb.d):
            return False
        out = []
        for k, v in ca.d.items():
            q = dict_find(I, cb, unkey(k))
            if q is None:
                return False
            out.append(elem_eq(I, v, cb.d[q[0]]))
        return T.and_(*out)
    return False


def elem_eq(I, x, y):
    if is_(I, x, y) is True:
        return True
    r = I.compare('eq', x, y)
    if isinstance(r, (bool, Term)):
        return T.tobool(r)
    return I.truth(r)


def seq_compare(I, op, xs, ys):
    if op in ('eq', 'ne'):
        if len(xs) != len(ys):
            r = False
        else:
            r = T.and_(*[elem_eq(I, x, y) for x, y in zip(xs, ys)])
        return r if op == 'eq' else I.not_val(r)
    for x, y in zip(xs, ys):
        if not I.truth(elem_eq(I, x, y)):
            return I.compare(op, x, y)
    n, m = len(xs), len(ys)
    return {'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[op]


# ------------------------------------------------------------------ len / getitem
def len_(I, v):
    if isinstance(v, (tuple, range, str)):
        return len(v)
    if isstr(v):
        return T.mk('strlen', (v,), 'i')
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.throw('TypeError', 'len() of unsized object')
        d = v.dims[0]
        return d
    if isinstance(v, DictView):
        return len(I.cell(v.ref).d)
    if isinstance(v, ClassV) and v.is_enum:
        return len(v.members)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListCell):
            return sum(len(s.items) for s in c.segs)
        if isinstance(c, DictCell):
            return len(c.d)
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__len__')
            if m is not None:
                r = I.call(BoundV(m, v), [], {})
                r = unwrap(I, r)
                if isinstance(r, float) or isinstance(r, Term) and r.sort == 'f' or not isscalar(r):
                    I.throw('TypeError', 'object cannot be interpreted as an integer')
                return r
    if isinstance(v, OpaqueV) and 'len' in v.attrs:
        return v.attrs['len']
    I.throw('TypeError', "object of type '%s' has no len()" % tname(I, v))


def _slice(I, s, n):
    f = lambda x: None if x is None else concretize(I, intval(I, x), -n - 1, n + 1, 'slice bound')
    return slice(f(s.lo), f(s.hi), f(s.step))


def _index(I, k, n):
    k = intval(I, k)
    if isinstance(k, Term):
        k = concretize(I, k, -n, n - 1)
        if k is None:
            I.throw('IndexError', 'index out of range')
    if k < -n or k >= n:
        I.throw('IndexError', 'index out of range')
    return k


def getitem(I, o, k):
    if isinstance(o, Arr):
        return I.np.getitem(I, o, k)
    if isinstance(o, (tuple, range)) or isinstance(o, str):
        if isinstance(k, SliceV):
            return o[_slice(I, k, len(o))]
        return o[_index(I, k, len(o))]
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ListCell):
            if c.kind in ('set', 'frozenset'):
                I.throw('TypeError', "'set' object is not subscriptable")
            items = c.items
            if isinstance(k, SliceV):
                return I.newlist(items[_slice(I, k, len(items))])
            return items[_index(I, k, len(items))]
        if isinstance(c, DictCell):
            q = dict_find(I, c, k)
            if q is None:
                d = getattr(c, 'default', None)
                if d is not None:
                    v = I.call(d, [], {})
                    I.wcell(o.id).d[key(I, k)] = v
                    return v
                if getattr(c, 'kind', '') == 'Counter':
                    return 0
                I.throw('KeyError', repr(k))
            return c.d[q[0]]
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__getitem__')
            if m is not None:
                return I.call(BoundV(m, o), [k], {})
    if isinstance(o, NamespaceV):
        e = I.heap[o.env]
        if k not in e.vars:
            I.throw('KeyError', k)
        return e.vars[k]
    if isinstance(o, OpaqueV):
        if 'getitem' in o.methods:
            return o.methods['getitem'](I, k)
        if o.name.startswith('typing'):
            return o
    if isinstance(o, ClassV):
        if o.is_enum:
            m = o.lookup(k)
            if isinstance(m, EnumV):
                return m
            I.throw('KeyError', k)
        return o
    if isinstance(o, (NativeClass, BuiltinV, LibV)):
        return o
    if isstr(o):
        if isinstance(k, SliceV):
            return T.mk('strslice', (o,) + tuple(None_(x) for x in (k.lo, k.hi, k.step)), 's')
        return T.mk('strat', (o, intval(I, k)), 's')
    I.throw('TypeError', "'%s' object is not subscriptable" % tname(I, o))


def None_(x):
    return 'None' if x is None else x


def setitem(I, o, k, v):
    if isinstance(o, Arr):
        return I.np.setitem(I, o, k, v)
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ListCell):
            items = list(c.items)
            if isinstance(k, SliceV):
                items[_slice(I, k, len(items))] = tolist(I, v)
            else:
                items[_index(I, k, len(items))] = v
            I.wcell(o.id).segs = [Seg(items=items)]
            return
        if isinstance(c, DictCell):
            q = dict_find(I, c, k)
            I.wcell(o.id).d[q[0] if q else key(I, k)] = v
            return
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__setitem__')
            if m is not None:
                return I.call(BoundV(m, o), [k, v], {})
    if isinstance(o, NamespaceV):
        I.wcell(o.env).vars[k] = v
        return
    I.throw('TypeError', "'%s' object does not support item assignment" % tname(I, o))


def delitem(I, o, k):
    if isinstance(o, Ref):
        c = I.cell(o)
        if isinstance(c, ListCell):
            items = list(c.items)
            if isinstance(k, SliceV):
                del items[_slice(I, k, len(items))]
            else:
                del items[_index(I, k, len(items))]
            I.wcell(o.id).segs = [Seg(items=items)]
            return
        if isinstance(c, DictCell):
            q = dict_find(I, c, k)
            if q is None:
                I.throw('KeyError', repr(k))
            del I.wcell(o.id).d[q[0]]
            return
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__delitem__')
            if m is not None:
                return I.call(BoundV(m, o), [k], {})
    I.throw('TypeError', "object doesn't support item deletion")


def list_binop(I, op, a, b):
    ca = I.cell(a) if isinstance(a, Ref) else None
    cb = I.cell(b) if isinstance(b, Ref) else None
    if isinstance(ca, ListCell) and isinstance(cb, ListCell):
        if ca.kind in ('set', 'frozenset') and cb.kind in ('set', 'frozenset'):
            xs, ys = ca.items, cb.items
            if op == 'or':
                r = I.newlist(xs, 'set')
                for y in ys:
                    set_add(I, r, y)
                return r
            if op == 'and':
                return I.newlist([x for x in xs if I.truth(contains(I, b, x))], 'set')
            if op == 'sub':
                return I.newlist([x for x in xs if not I.truth(contains(I, b, x))], 'set')
            if op == 'xor':
                return I.newlist([x for x in xs if not I.truth(contains(I, b, x))] +
                                 [y for y in ys if not I.truth(contains(I, a, y))], 'set')
        if op == 'add' and ca.kind == cb.kind == 'list':
            return I.newlist(ca.items + cb.items)
    for c, o in ((ca, b), (cb, a)):
        if isinstance(c, ListCell) and op == 'mul' and not isinstance(o, Ref):
            o = unwrap(I, o)
            if isinstance(o, Term) and o.sort == 'i':
                o = concretize(I, o, 0, 16, 'repetition')
            if isinstance(o, int):
                return I.newlist(c.items * o)
    if isinstance(ca, DictCell) and isinstance(cb, DictCell) and op == 'or':
        return I.alloc(DictCell({**ca.d, **cb.d}))
    return NOTIMPL


# ------------------------------------------------------------------ attributes
def B(name):
    def deco(f):
        return BuiltinV(name, f)
    return deco


def _list_method(I, r, name):
    c = I.cell(r)
    if c.kind in ('set', 'frozenset'):
        return _set_method(I, r, name)

    def w(items):
        I.wcell(r.id).segs = [Seg(items=list(items))]

    def append(I, a, k):
        I.list_append(r, a[0])

    def extend(I, a, k):
        I.list_extend(r, a[0])

    def insert(I, a, k):
        it = list(I.cell(r).items)
        n = len(it)
        i = concretize(I, intval(I, a[0]), -n - 2, n + 2)
        it.insert(i, a[1])
        w(it)

    def pop(I, a, k):
        it = list(I.cell(r).items)
        if not it:
            I.throw('IndexError', 'pop from empty list')
        i = _index(I, a[0], len(it)) if a else -1
        v = it.pop(i)
        w(it)
        return v

    def popleft(I, a, k):
        it = list(I.cell(r).items)
        if not it:
            I.throw('IndexError', 'pop from an empty deque')
        w(it[1:])
        return it[0]

    def appendleft(I, a, k):
        w([a[0]] + list(I.cell(r).items))

    def remove(I, a, k):
        it = list(I.cell(r).items)
        for i, x in enumerate(it):
            if I.truth(elem_eq(I, x, a[0])):
                del it[i]
                w(it)
                return None
        I.throw('ValueError', 'list.remove(x): x not in list')

    def index(I, a, k):
        for i, x in enumerate(I.cell(r).items):
            if I.truth(elem_eq(I, x, a[0])):
                return i
        I.throw('ValueError', 'is not in list')

    def count(I, a, k):
        n = 0
        for x in I.cell(r).items:
            if I.truth(elem_eq(I, x, a[0])):
                n += 1
        return n

    def reverse(I, a, k):
        w(list(I.cell(r).items)[::-1])

    def sort(I, a, k):
        w(sort_items(I, list(I.cell(r).items), k.get('key'), k.get('reverse', False)))

    def copy(I, a, k):
        return I.newlist(I.cell(r).items, c.kind)

    def clear(I, a, k):
        w([])

    d = dict(append=append, extend=extend, insert=insert, pop=pop, popleft=popleft, appendleft=appendleft,
             remove=remove, index=index, count=count, reverse=reverse, sort=sort, copy=copy, clear=clear)
    if c.kind == 'list':
        d.pop('popleft'), d.pop('appendleft')
    d['__len__'] = lambda I, a, k: len_(I, r)
    d['__getitem__'] = lambda I, a, k: getitem(I, r, a[0])
    d['__iter__'] = lambda I, a, k: mkiter(I, r)
    d['__contains__'] = lambda I, a, k: contains(I, r, a[0])
    return BuiltinV('list.' + name, d[name]) if name in d else None


def _set_method(I, r, name):
    def w(items):
        I.wcell(r.id).segs = [Seg(items=list(items))]

    def asset(x):
        return I.newlist(tolist(I, x), 'set')

    def discard(I, a, k):
        w([x for x in I.cell(r).items if not I.truth(elem_eq(I, x, a[0]))])

    def remove(I, a, k):
        n = len(I.cell(r).items)
        discard(I, a, k)
        if len(I.cell(r).items) == n:
            I.throw('KeyError', 'set')

    def update(I, a, k):
        for x in a:
            for y in tolist(I, x):
                set_add(I, r, y)

    def pop(I, a, k):
        it = list(I.cell(r).items)
        if not it:
            I.throw('KeyError', 'pop from an empty set')
        i = I.choose(len(it))
        v = it.pop(i)
        w(it)
        return v

    def clear(I, a, k):
        w([])

    def bop(op):
        return lambda I, a, k: list_binop(I, op, r, asset(a[0]))

    d = dict(add=lambda I, a, k: set_add(I, r, a[0]), discard=discard, remove=remove, update=update, pop=pop,
             clear=clear, copy=lambda I, a, k: I.newlist(I.cell(r).items, 'set'),
             union=bop('or'), intersection=bop('and'), difference=bop('sub'), symmetric_difference=bop('xor'),
             issubset=lambda I, a, k: set_compare(I, 'le', r, asset(a[0])),
             issuperset=lambda I, a, k: set_compare(I, 'ge', r, asset(a[0])),
             isdisjoint=lambda I, a, k: not I.cell(list_binop(I, 'and', r, asset(a[0]))).items)
    return BuiltinV('set.' + name, d[name]) if name in d else None


def _dict_method(I, r, name):
    def get(I, a, k):
        q = dict_find(I, I.cell(r), a[0])
        return I.cell(r).d[q[0]] if q else (a[1] if len(a) > 1 else k.get('default'))

    def setdefault(I, a, k):
        q = dict_find(I, I.cell(r), a[0])
        if q:
            return I.cell(r).d[q[0]]
        v = a[1] if len(a) > 1 else None
        I.wcell(r.id).d[key(I, a[0])] = v
        return v

    def pop(I, a, k):
        q = dict_find(I, I.cell(r), a[0])
        if q is None:
            if len(a) > 1:
                return a[1]
            I.throw('KeyError', repr(a[0]))
        return I.wcell(r.id).d.pop(q[0])

    def update(I, a, k):
        if a:
            if isinstance(a[0], Ref) and isinstance(I.cell(a[0]), DictCell):
                items = [(unkey(x), y) for x, y in I.cell(a[0]).d.items()]
            else:
                items = [tuple(tolist(I, x)) for x in tolist(I, a[0])]
            for x, y in items:
                setitem(I, r, x, y)
        for x, y in k.items():
            setitem(I, r, x, y)

    def copy(I, a, k):
        return I.alloc(I.cell(r).copy())

    def popitem(I, a, k):
        d = I.wcell(r.id).d
        if not d:
            I.throw('KeyError', 'popitem')
        x, y = d.popitem()
        return (unkey(x), y)

    def clear(I, a, k):
        I.wcell(r.id).d.clear()

    d = dict(get=get, setdefault=setdefault, pop=pop, update=update, copy=copy, popitem=popitem, clear=clear,
             keys=lambda I, a, k: DictView(r, 'keys'), values=lambda I, a, k: DictView(r, 'values'),
             items=lambda I, a, k: DictView(r, 'items'),
             __contains__=lambda I, a, k: contains(I, r, a[0]))
    return BuiltinV('dict.' + name, d[name]) if name in d else None


def container_attr(I, v, c, name):
    if isinstance(v, NamespaceV):
        e = v.env
        d = dict(get=lambda I, a, k: I.heap[e].vars.get(a[0], a[1] if len(a) > 1 else None),
                 setdefault=lambda I, a, k: I.heap[e].vars[a[0]] if a[0] in I.heap[e].vars else (
                     setitem(I, v, a[0], a[1]), a[1])[1],
                 keys=lambda I, a, k: I.newlist(list(I.heap[e].vars)),
                 update=lambda I, a, k: [setitem(I, v, x, y) for x, y in list(I.cell(a[0]).d.items())] and None)
        return BuiltinV(name, d[name]) if name in d else None
    if isinstance(c, ListCell):
        return _list_method(I, v, name)
    if isinstance(c, DictCell):
        return _dict_method(I, v, name)
    return None


def native_attr(I, v, c, name):
    n = c.cls.name
    if any(m.name == 'BaseException' for m in c.cls.mro):
        if name == 'args':
            return c.fields.get('args', ())
        if name == 'with_traceback':
            return BuiltinV(name, lambda I, a, k: v)
        if name in ('__cause__', '__context__', '__traceback__'):
            return None
    if c.cls is NATIVE['iterator']:
        if name == '__next__':
            return BuiltinV(name, lambda I, a, k: builtin_next(I, [v], {}))
        if name == '__iter__':
            return BuiltinV(name, lambda I, a, k: v)
        if name == 'close':
            return BuiltinV(name, lambda I, a, k: None)
    if n in ('datetime', 'date'):
        return _dt_attr(I, v, c, name)
    if n == 'timedelta':
        return _td_attr(I, v, c, name)
    if name == '__init__':
        return BuiltinV('object.__init__', lambda I, a, k: None)
    if name == '__eq__' and isinstance(c.cls, ClassV):
        return BuiltinV('object.__eq__', lambda I, a, k: True if is_(I, v, a[0]) else NOTIMPL)
    if name == '__ne__':
        return BuiltinV('object.__ne__', lambda I, a, k: I.compare('ne', v, a[0]))
    if name in ('__str__', '__repr__'):
        return BuiltinV('object.' + name, lambda I, a, k: repr_(I, v, user=False))
    if name == '__doc__':
        return ''
    if name == '__module__':
        return c.cls.module.name if isinstance(c.cls, ClassV) else 'builtins'
    if name == '__setattr__':
        return BuiltinV(name, lambda I, a, k: I.wcell(v.id).fields.__setitem__(a[0], a[1]))
    if name == '__getattribute__':
        return BuiltinV(name, lambda I, a, k: I.getattr_(v, a[0]))
    return None


def class_attr(I, c, name):
    if name == '__init__':
        return BuiltinV('object.__init__', lambda I, a, k: None)
    if name == '__doc__':
        return ''
    if name == '__module__':
        return c.module.name
    if name == '__bases__':
        return tuple(c.bases)
    if name == '__setattr__':
        return BuiltinV(name, lambda I, a, k: I.wcell(a[0].id).fields.__setitem__(a[1], a[2]))
    if name == '__new__':
        return BuiltinV('object.__new__', lambda I, a, k: I.alloc(ObjCell(a[0])))
    if name == '__subclasses__':
        raise Unsupported('__subclasses__')
    for m in c.mro:
        if isinstance(m, NativeClass):
            h = native_class_attr(I, m, name)
            if h is not None:
                return h
    return None


def native_class_attr(I, c, name):
    n = c.name
    if n == 'object':
        if name == '__setattr__':
            return BuiltinV(name, lambda I, a, k: I.wcell(a[0].id).fields.__setitem__(a[1], a[2]))
        if name == '__new__':
            return BuiltinV('object.__new__', lambda I, a, k: I.alloc(ObjCell(a[0])))
        if name == '__init__':
            return BuiltinV('object.__init__', lambda I, a, k: None)
    if n == 'dict' and name == 'fromkeys':
        def fromkeys(I, a, k):
            return I.alloc(DictCell({key(I, x): (a[1] if len(a) > 1 else None) for x in iterate(I, a[0])}))
        return BuiltinV('dict.fromkeys', fromkeys)
    if n in ('str', 'list', 'dict', 'set', 'int', 'float'):
        return BuiltinV(n + '.' + name, lambda I, a, k: I.call(I.getattr_(a[0], name), a[1:], k))
    if n in ('datetime', 'date', 'timedelta'):
        return _dt_class_attr(I, c, name)
    if n == 'ndarray':
        return BuiltinV('ndarray.' + name, lambda I, a, k: I.call(I.getattr_(a[0], name), a[1:], k))
    if any(m.name == 'BaseException' for m in c.mro) and name == '__init__':
        return BuiltinV('Exception.__init__', lambda I, a, k: I.wcell(a[0].id).fields.__setitem__('args', tuple(a[1:])))
    if name == '__init__':
        return BuiltinV('object.__init__', lambda I, a, k: None)
    if name == '__doc__':
        return ''
    return None


_STRM = {'zfill': 's', 'ljust': 's', 'rjust': 's', 'center': 's', 'upper': 's', 'lower': 's', 'strip': 's', 'lstrip': 's',
         'rstrip': 's', 'replace': 's', 'startswith': 'b', 'endswith': 'b', 'isdigit': 'b', 'find': 'i', 'count': 'i',
         'title': 's', 'capitalize': 's', 'expandtabs': 's', 'index': 'i', 'rfind': 'i', 'swapcase': 's', 'isspace': 'b',
         'casefold': 's', 'isalpha': 'b', 'isnumeric': 'b', 'removesuffix': 's', 'removeprefix': 's'}


_PYT = {'float64': _np.float64, 'int64': _np.int64, 'bool_': _np.bool_, 'str_': _np.str_, 'ndarray': _np.ndarray, 'float': float, 'int': int,
        'bool': bool, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'range': range,
        'deque': collections.deque, 'datetime': datetime.datetime, 'timedelta': datetime.timedelta,
        'defaultdict': collections.defaultdict, 'Counter': collections.Counter, 'memoryview': memoryview}


def model_gap(I, v, name):
    """True when the attribute exists but the analysis has no model of it."""
    if isinstance(v, DictView):
        return True
    if isinstance(v, OpaqueV):
        return True
    t = type_(I, v)
    if isinstance(t, NativeClass):
        if t.name in _PYT:
            return hasattr(_PYT[t.name], name)
        if t.name == 'function':
            return name.startswith('__')
    return False


def scalar_attr(I, v, name):
    if isstr(v):
        return _str_method(I, v, name)
    if isinstance(v, tuple):
        nt = getattr(v, 'ntcls', None)
        if nt is not None:
            if name in v.ntfields:
                return v[v.ntfields.index(name)]
            if name == '_fields':
                return tuple(v.ntfields)
            if name == '_asdict':
                return BuiltinV(name, lambda I, a, k: I.alloc(DictCell(dict(zip(v.ntfields, v)))))
            if name == '_replace':
                def rep(I, a, k):
                    return mknt(nt, v.ntfields, [k.get(f, x) for f, x in zip(v.ntfields, v)])
                return BuiltinV(name, rep)
        if name == 'index':
            def index(I, a, k):
                for i, x in enumerate(v):
                    if I.truth(elem_eq(I, x, a[0])):
                        return i
                I.throw('ValueError', 'tuple.index(x): x not in tuple')
            return BuiltinV('tuple.index', index)
        if name == 'count':
            return BuiltinV('tuple.count', lambda I, a, k: sum(1 for x in v if I.truth(elem_eq(I, x, a[0]))))
        if name == '__len__':
            return BuiltinV(name, lambda I, a, k: len(v))
        return None
    if isscalar(v):
        if name == 'real':
            return v
        if name == 'imag':
            return 0
        if name == 'is_integer':
            return BuiltinV(name, lambda I, a, k: T.eq(T.floor(v), v))
        if name == 'conjugate':
            return BuiltinV(name, lambda I, a, k: v)
        if name == '__float__':
            return BuiltinV(name, lambda I, a, k: to_float(I, v))
        ops = {'__%s__' % o: o for o in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv')}
        if name in ops:
            return BuiltinV(name, lambda I, a, k: I.binop(ops[name], v, a[0]))
        cmps = {'__%s__' % o: o for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')}
        if name in cmps:
            return BuiltinV(name, lambda I, a, k: I.compare(cmps[name], v, a[0]))
        if name == '__class__':
            return type_(I, v)
        if name == 'bit_length' and isinstance(v, int):
            return BuiltinV(name, lambda I, a, k: v.bit_length())
        return None
    if isinstance(v, DictView):
        return None
    if isinstance(v, SliceV):
        return {'start': v.lo, 'stop': v.hi, 'step': v.step}.get(name)
    if name == '__class__':
        return type_(I, v)
    if isinstance(v, PropertyV):
        if name in ('setter',):
            return BuiltinV(name, lambda I, a, k: PropertyV(v.fget, a[0]))
        if name == 'fget':
            return v.fget
    if isinstance(v, range):
        return {'start': v.start, 'stop': v.stop, 'step': v.step}.get(name)
    return None


def _str_method(I, v, name):
    def join(I, a, k):
        xs = tolist(I, a[0])
        out = []
        for i, x in enumerate(xs):
            x = unwrap(I, x)
            if not isstr(x):
                I.throw('TypeError', 'sequence item %d: expected str instance' % i)
            if i:
                out.append(v)
            out.append(x)
        return T.cat(*out) if out else ''

    def fmt(I, a, k):
        if not isinstance(v, str):
            raise Unsupported('format on symbolic string')
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(v):
            if lit:
                out.append(lit)
            if field is None:
                continue
            root = field.replace('[', '.').split('.')[0]
            if root == '':
                x, auto = a[auto], auto + 1
            elif root.isdigit():
                x = a[int(root)]
            else:
                x = k[root]
            rest = field[len(root):]
            import re
            for m in re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
                if m.group(1):
                    x = I.getattr_(x, m.group(1))
                else:
                    q = m.group(2)
                    x = getitem(I, x, int(q) if q.lstrip('-').isdigit() else q)
            if '{' in (spec or ''):
                parts, n0 = [], auto
                for lit2, field2, spec2, conv2 in string.Formatter().parse(spec):
                    parts.append(lit2)
                    if field2 is None:
                        continue
                    if spec2 or conv2:
                        raise Unsupported('nested format spec')
                    if field2 == '':
                        y, auto = a[auto], auto + 1
                    elif field2.isdigit():
                        y = a[int(field2)]
                    elif field2.isidentifier():
                        y = k[field2]
                    else:
                        raise Unsupported('nested format spec')
                    parts.append(str_(I, y))
                spec = T.cat(*parts)
            if conv == 'r':
                x = repr_(I, x)
            elif conv == 's':
                x = str_(I, x)
            out.append(format_(I, x, spec or ''))
        return T.cat(*out) if out else ''

    def split(I, a, k):
        if isinstance(v, str) and all(isinstance(x, (str, int)) or x is None for x in a):
            return I.newlist(v.split(*a, **k))
        raise Unsupported('split of a symbolic string')

    if name == 'join':
        return BuiltinV('str.join', join)
    if name == 'format':
        return BuiltinV('str.format', fmt)
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
        if name == 'split':
            return BuiltinV('str.split', split)

        def f(I, a, k):
            if isinstance(v, str):
                r = getattr(v, name)(*a, **k)
                return r if isinstance(r, tuple) else I.newlist(r)
            raise Unsupported(name + ' of a symbolic string')
        return BuiltinV('str.' + name, f)
    if name == 'encode':
        return BuiltinV('str.encode', lambda I, a, k: v)
    if name in _STRM:
        def m(I, a, k):
            a = [unwrap(I, x) for x in a]
            for x in a:
                if not (isstr(x) or isinstance(x, (int, tuple)) or isinstance(x, Term) and x.sort == 'i'):
                    I.throw('TypeError', 'bad argument type for str.' + name)
            if isinstance(v, str) and all(not isinstance(x, Term) for x in a):
                try:
                    return getattr(v, name)(*a, **k)
                except (TypeError, ValueError) as e:
                    I.throw(type(e).__name__, str(e))
            return T.mk('strm', (name, v) + tuple(a), _STRM[name])
        return BuiltinV('str.' + name, m)
    if name == '__len__':
        return BuiltinV(name, lambda I, a, k: len_(I, v))
    if name == '__class__':
        return NATIVE['str']
    if name == '__contains__':
        return BuiltinV(name, lambda I, a, k: contains(I, v, a[0]))
    return None


def opaque_attr(I, v, name):
    f = getattr(v, 'any_attr', None)
    if f is not None:
        return f(I, name)
    from .interp import _MISSING
    if v.name.startswith('typing'):
        return OpaqueV('typing.' + name)
    return _MISSING


def opaque_binop(I, op, x, y, refl):
    if v_typing(x):
        return x
    return NOTIMPL


def v_typing(x):
    return isinstance(x, OpaqueV) and x.name.startswith('typing')


def opaque_compare(I, op, a, b):
    for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op))):
        if isinstance(x, OpaqueV) and ('cmp_' + o) in x.methods:
            return x.methods['cmp_' + o](I, y)
    return NOTIMPL


# ------------------------------------------------------------------ strings
def str_(I, v):
    if isinstance(v, str) or isstr(v):
        return v
    if isinstance(v, EnumV):
        m = v.cls.lookup('__str__')
        if isinstance(m, FuncV):
            return I.call(BoundV(m, v), [], {})
        if any(x.name in ('IntEnum', 'IntFlag', 'StrEnum') for x in v.cls.mro):
            return str(v.value)
        return '%s.%s' % (v.cls.name, v.name)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__str__')
            if m is not None:
                return I.call(BoundV(m, v), [], {})
            if any(x.name == 'BaseException' for x in c.cls.mro):
                a = c.fields.get('args', ())
                return str_(I, a[0]) if len(a) == 1 else repr_(I, a)
            if c.cls.name == 'datetime':
                return T.mk('strdt', _dt_terms(c), 's')
    if isinstance(v, Arr) and v.ndim == 0 and not v.mem:
        return str_(I, I.np.item(I, v))
    if isinstance(v, Term):
        return T.mk('str', (v,), 's')
    if isinstance(v, (int, float)):
        return str(v)
    return repr_(I, v)


def repr_(I, v, user=True):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Term):
        return T.mk('repr', (v,), 's')
    if isinstance(v, (int, float)) or v is None:
        return repr(v)
    if isinstance(v, tuple):
        xs = [repr_(I, x) for x in v]
        out = ['(']
        for i, x in enumerate(xs):
            out += ([', '] if i else []) + [x]
        return T.cat(*(out + [',)' if len(xs) == 1 else ')']))
    if isinstance(v, EnumV):
        return '<%s.%s: %r>' % (v.cls.name, v.name, v.value)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ObjCell):
            m = c.cls.lookup('__repr__') if user else None
            if m is not None:
                return I.call(BoundV(m, v), [], {})
            if any(x.name == 'BaseException' for x in c.cls.mro):
                return T.cat(c.cls.name, repr_(I, c.fields.get('args', ())))
            return '<%s object at %d>' % (c.cls.name, v.id)
        if isinstance(c, ListCell):
            o, e = {'list': '[]', 'set': '{}', 'deque': ('deque([', '])'), 'frozenset': ('frozenset({', '})')}[c.kind]
            out = [o]
            for i, x in enumerate(c.items):
                out += ([', '] if i else []) + [repr_(I, x)]
            return T.cat(*(out + [e]))
        if isinstance(c, DictCell):
            out = ['{']
            for i, (k, x) in enumerate(c.d.items()):
                out += ([', '] if i else []) + [repr_(I, unkey(k)), ': ', repr_(I, x)]
            return T.cat(*(out + ['}']))
    if isinstance(v, Arr):
        if v.ndim == 0:
            return repr_(I, I.np.item(I, v))
        return I.np.repr_arr(I, v)
    if isinstance(v, (ClassV, NativeClass)):
        return "<class '%s'>" % v.name
    return repr(v)


def format_(I, v, spec):
    v = unwrap(I, v)
    if spec == '':
        if I.is_obj(v) and I.cell(v).cls.lookup('__format__'):
            return I.call(BoundV(I.cell(v).cls.lookup('__format__'), v), [spec], {})
        return str_(I, v)
    if isinstance(v, EnumV):
        v = v.value
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__format__')
        if m is not None:
            return I.call(BoundV(m, v), [spec], {})
        if I.cell(v).cls.name in ('datetime', 'date'):
            return T.mk('strftime', (spec,) + _dt_terms(I.cell(v)), 's')
        I.throw('TypeError', 'unsupported format string')
    if isinstance(v, Arr) or isinstance(v, (tuple,)) or v is None or isinstance(v, Ref):
        I.throw('TypeError', 'unsupported format string passed to __format__')
    if T.isconst(v) and isinstance(spec, str):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            I.throw('ValueError', str(e))
    if isinstance(spec, str):
        dummy = {'f': 1.5, 'i': 1, 'b': True, 's': 'x'}.get(T.sort_of(v), 1.5)
        try:
            format(dummy, spec)
        except (ValueError, TypeError) as e:
            I.throw('ValueError', str(e))
    return T.mk('format', (spec, v), 's')


def percent(I, f, arg):
    """f % arg"""
    args = arg if isinstance(arg, tuple) else None
    if not isinstance(f, str):
        a = unwrap(I, arg)
        if not (isscalar(a) or isstr(a)):
            I.throw('TypeError', 'not all arguments converted')
        return T.mk('fmt%', (f, a), 's')
    if isinstance(arg, Ref) and isinstance(I.cell(arg), DictCell) and '%(' in f:
        import re
        out, last = [], 0
        for m in re.finditer(r'%\((\w+)\)([-#0 +]*[\d.]*[a-zA-Z])', f):
            out.append(f[last:m.start()].replace('%%', '%'))
            out.append(percent(I, '%' + m.group(2), getitem(I, arg, m.group(1))))
            last = m.end()
        out.append(f[last:].replace('%%', '%'))
        return T.cat(*out)
    import re
    specs = list(re.finditer(r'%([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', f))
    n = sum(1 for m in specs if m.group(4) != '%') + sum((m.group(2) == '*') + (m.group(3) == '*') for m in specs)
    if args is None:
        args = (arg,)
    if n != len(args):
        I.throw('TypeError', 'not enough or too many arguments for format string')
    out, last, i = [], 0, 0
    for m in specs:
        out.append(f[last:m.start()])
        last = m.end()
        if m.group(4) == '%':
            out.append('%')
            continue
        sp = m.group(0)
        for g in (2, 3):
            if m.group(g) == '*':
                w = unwrap(I, args[i])
                i += 1
                if not isinstance(w, int):
                    raise Unsupported('symbolic width in % format')
                sp = sp.replace('*', str(w), 1)
        x = args[i]
        i += 1
        c = m.group(4)
        if isinstance(x, Arr) and x.ndim > 0 and c not in 'sr':
            if I.np.size_const(x) == 1:
                x = I.np.get1(I, x)
            else:
                I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        x = unwrap(I, x)
        if c == 's':
            x = str_(I, x)
        elif c == 'r':
            x, sp = repr_(I, x), sp[:-1] + 's'
        else:
            if not isscalar(x):
                I.throw('TypeError', 'must be real number, not ' + tname(I, x))
        if sp == '%s':
            out.append(x)
        elif isinstance(x, Term):
            out.append(T.mk('fmt%', (sp, x), 's'))
        else:
            try:
                out.append(sp % x)
            except (TypeError, ValueError) as e:
                I.throw(type(e).__name__, str(e))
    out.append(f[last:])
    return T.cat(*out)


# ------------------------------------------------------------------ sorting
def sort_items(I, items, keyf, reverse):
    if len(items) > 40:
        raise Unsupported('sort of a long list')
    keys = [x if keyf is None else I.call(keyf, [x], {}) for x in items]
    reverse = I.truth(reverse)
    ks = [unwrap(I, k) for k in keys]
    if all(isinstance(k, (int, float, str)) and not isinstance(k, Term) for k in ks):
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse)
        except TypeError as e:
            I.throw('TypeError', str(e))
        return [items[i] for i in order]
    seq = list(range(len(items)))
    if reverse:
        seq.reverse()
    out = []
    for i in seq:               # stable insertion sort
        j = len(out)
        while j > 0 and I.truth(I.compare('lt', keys[i], keys[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    if reverse:
        out.reverse()
    return [items[i] for i in out]


# ------------------------------------------------------------------ builtins
def _b(name):
    def deco(f):
        BUILTINS[name] = BuiltinV(name, f)
        return f
    return deco


for _n, _c in NATIVE.items():
    if any(m.name == 'BaseException' for m in _c.mro):
        BUILTINS[_n] = _c
for _n in ('object', 'float', 'int', 'complex', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset', 'bool',
           'type', 'slice', 'range', 'memoryview'):
    BUILTINS[_n] = NATIVE[_n]
BUILTINS['NotImplemented'] = NOTIMPL
ELLIPSIS = OpaqueV('Ellipsis')
BUILTINS['Ellipsis'] = ELLIPSIS
BUILTINS['__name__'] = '__main__'
BUILTINS['__debug__'] = True
BUILTINS['globals'] = BuiltinV('globals', None)
BUILTINS['locals'] = BuiltinV('locals', None)


@_b('len')
def _len(I, a, k):
    return len_(I, a[0])


@_b('abs')
def _abs(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return I.np.call(I, 'abs', [v], {})
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__abs__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
        if I.cell(v).cls.name == 'timedelta':
            return mk_td(I, T.absv(I.cell(v).fields['days']))
    v = unwrap(I, v)
    if isscalar(v):
        return T.absv(v)
    I.throw('TypeError', "bad operand type for abs(): '%s'" % tname(I, v))


@_b('round')
def _round(I, a, k):
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    v = a[0]
    if isinstance(v, Arr) and v.ndim > 0:
        return I.np.call(I, 'round', [v] + ([nd] if nd is not None else []), {})
    np_ = isinstance(v, Arr)
    v = unwrap(I, v)
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__round__')
        if m is not None:
            return I.call(BoundV(m, v), a[1:], {})
    if not isscalar(v):
        I.throw('TypeError', 'type does not define __round__')
    nd = unwrap(I, nd)
    r = T.rnd(v, nd)
    if np_ and nd is not None:
        return I.np.scalar(I, r, 'f')
    return r


@_b('divmod')
def _divmod(I, a, k):
    return (I.binop('floordiv', a[0], a[1]), I.binop('mod', a[0], a[1]))


@_b('pow')
def _pow(I, a, k):
    if len(a) > 2:
        raise Unsupported('pow with modulus')
    return I.binop('pow', a[0], a[1])


@_b('sum')
def _sum(I, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in iterate(I, a[0]):
        acc = I.binop('add', acc, x)
    return acc


def _minmax(op):
    def f(I, a, k):
        if len(a) == 1:
            xs = tolist(I, a[0])
        else:
            xs = list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            I.throw('ValueError', '%s() arg is an empty sequence' % op)
        kf = k.get('key')
        if kf is None:
            if all(isscalar(x) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = (T.minimum if op == 'min' else T.maximum)(r, x)
                return r
            if all(isinstance(x, Arr) and x.ndim == 0 or isscalar(x) for x in xs):
                r = unwrap(I, xs[0])
                for x in xs[1:]:
                    r = (T.minimum if op == 'min' else T.maximum)(r, unwrap(I, x))
                return I.np.scalar(I, r, None)
        keys = [x if kf is None else I.call(kf, [x], {}) for x in xs]
        b = 0
        for i in range(1, len(xs)):
            if I.truth(I.compare('lt' if op == 'min' else 'gt', keys[i], keys[b])):
                b = i
        return xs[b]
    return f


BUILTINS['min'] = BuiltinV('min', _minmax('min'))
BUILTINS['max'] = BuiltinV('max', _minmax('max'))


@_b('any')
def _any(I, a, k):
    for x in iterate(I, a[0]):
        if I.truth(x):
            return True
    return False


@_b('all')
def _all(I, a, k):
    for x in iterate(I, a[0]):
        if not I.truth(x):
            return False
    return True


@_b('enumerate')
def _enumerate(I, a, k):
    return mk_it(I, kind='enumerate', src=mkiter(I, a[0]), n=a[1] if len(a) > 1 else k.get('start', 0))


@_b('zip')
def _zip(I, a, k):
    return mk_it(I, kind='zip', srcs=tuple(mkiter(I, x) for x in a), strict=k.get('strict', False))


@_b('map')
def _map(I, a, k):
    return mk_it(I, kind='map', fn=a[0], srcs=tuple(mkiter(I, x) for x in a[1:]))


@_b('filter')
def _filter(I, a, k):
    return mk_it(I, kind='filter', fn=a[0], src=mkiter(I, a[1]))


@_b('reversed')
def _reversed(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return mkiter(I, I.np.getitem(I, v, SliceV(None, None, -1)))
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__reversed__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
        if I.cell(v).cls is NATIVE['iterator']:
            I.throw('TypeError', "object is not reversible")
        n = len_(I, v)
        if isinstance(n, int):
            return mkiter(I, I.newlist([getitem(I, v, i) for i in range(n - 1, -1, -1)]))
    return mkiter(I, I.newlist(tolist(I, v)[::-1]))


@_b('sorted')
def _sorted(I, a, k):
    return I.newlist(sort_items(I, tolist(I, a[0]), k.get('key'), k.get('reverse', False)))


@_b('iter')
def _iter(I, a, k):
    if len(a) > 1:
        raise Unsupported('two-argument iter')
    return mkiter(I, a[0])


@_b('next')
def builtin_next(I, a, k):
    v = a[0]
    if I.is_obj(v):
        if I.cell(v).cls is NATIVE['iterator']:
            r = iter_next(I, v)
            if r is STOP:
                if len(a) > 1:
                    return a[1]
                I.throw('StopIteration')
            return r
        m = I.cell(v).cls.lookup('__next__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
    I.throw('TypeError', 'object is not an iterator')


@_b('isinstance')
def _isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


@_b('issubclass')
def _issubclass(I, a, k):
    c = as_class(I, a[0])
    return any(x in c.mro for x in _classes(I, a[1]))


@_b('callable')
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundV, BuiltinV, ClassV, NativeClass, LibV)):
        return True
    return I.is_obj(v) and I.cell(v).cls.lookup('__call__') is not None or isinstance(v, OpaqueV) and v.call is not None


@_b('hasattr')
def _hasattr(I, a, k):
    m = object()
    try:
        return I.getattr_(a[0], a[1], m, True) is not m
    except Exception as e:
        if type(e).__name__ == 'RaiseEx' and I.exc_name(e.value) == 'AttributeError':
            return False
        raise


@_b('getattr')
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with a symbolic name')
    if len(a) > 2:
        try:
            return I.getattr_(a[0], a[1], a[2], True)
        except Exception as e:
            if type(e).__name__ == 'RaiseEx' and I.exc_name(e.value) == 'AttributeError':
                return a[2]
            raise
    return I.getattr_(a[0], a[1])


@_b('setattr')
def _setattr(I, a, k):
    I.setattr_(a[0], a[1], a[2])


@_b('delattr')
def _delattr(I, a, k):
    I.wcell(a[0].id).fields.pop(a[1], None)


@_b('vars')
def _vars(I, a, k):
    return I.getattr_(a[0], '__dict__')


@_b('id')
def _id(I, a, k):
    v = a[0]
    return v.id if isinstance(v, Ref) else id(v) % (10 ** 12)


@_b('hash')
def _hash(I, a, k):
    return T.opaque('hash', (0,), 'i')


@_b('repr')
def _repr(I, a, k):
    return repr_(I, a[0])


@_b('ascii')
def _ascii(I, a, k):
    return repr_(I, a[0])


@_b('format')
def _format(I, a, k):
    return format_(I, a[0], a[1] if len(a) > 1 else '')


@_b('print')
def _print(I, a, k):
    f = k.get('file')
    if f is not None and isinstance(f, OpaqueV) and f.name == 'file':
        sep, end = k.get('sep', ' '), k.get('end', '\n')
        sep = ' ' if sep is None else sep
        end = '\n' if end is None else end
        out = []
        for i, x in enumerate(a):
            out += ([sep] if i else []) + [str_(I, x)]
        f.methods['write'](I, [T.cat(*(out + [end]))], {})
        return None
    I.events.append(('print', tuple(a), I.site))


@_b('property')
def _property(I, a, k):
    return PropertyV(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))


@_b('staticmethod')
def _static(I, a, k):
    return StaticV(a[0])


@_b('classmethod')
def _classm(I, a, k):
    return ClassMV(a[0])


@_b('super')
def _super(I, a, k):
    if len(a) == 2:
        return SuperV(a[0], a[1])
    raise Unsupported('super() form')


@_b('chr')
def _chr(I, a, k):
    return chr(a[0])


@_b('ord')
def _ord(I, a, k):
    return ord(a[0])


@_b('input')
def _input(I, a, k):
    raise Unsupported('input()')


@_b('__import__')
def _import(I, a, k):
    top = a[0]
    if top.split('.')[0] == 'celest':
        I.load(top)
        return I.load('celest')
    return LibV(top.split('.')[0])


@_b('open')
def _open(I, a, k):
    return mk_file(I, a, k)


def mk_file(I, a, k):
    I.nfresh += 1
    fid = 'file#%d' % I.nfresh
    a = [_fspath(I, x) for x in a]
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    enc = k.get('encoding', a[3] if len(a) > 3 else None)
    I.events.append(('open', fid, a[0] if a else k.get('file'), mode, enc, dict(k), I.site))
    f = OpaqueV('file')
    f.fid = fid

    def write(I, a, k):
        v = a[0]
        v = unwrap(I, v)
        if not isstr(v):
            I.throw('TypeError', 'write() argument must be str')
        h = I.hooks.get('file.write')
        if h is not None:
            h(I)
        I.events.append(('write', fid, v, I.site))
        return len_(I, v)

    def writelines(I, a, k):
        for x in iterate(I, a[0]):
            write(I, [x], {})

    def close(I, a, k):
        I.events.append(('close', fid, I.site))

    f.methods.update(write=write, writelines=writelines, close=close,
                     flush=lambda I, a, k: None)
    f.attrs['name'] = a[0] if a else k.get('file')
    f.attrs['closed'] = False
    f.enter = lambda I: f
    f.exit = lambda I, e: close(I, [], {})
    return f


def enter(I, cm):
    if isinstance(cm, OpaqueV) and hasattr(cm, 'enter'):
        return cm.enter(I)
    if I.is_obj(cm):
        m = I.cell(cm).cls.lookup('__enter__')
        if m is not None:
            return I.call(BoundV(m, cm), [], {})
    raise Unsupported('with on %r at %s' % (cm, I.site))


def exit_(I, cm, exc):
    if isinstance(cm, OpaqueV) and hasattr(cm, 'exit'):
        return bool(cm.exit(I, exc))
    if I.is_obj(cm):
        m = I.cell(cm).cls.lookup('__exit__')
        if m is not None:
            args = [None, None, None] if exc is None else [I.cell(exc).cls, exc, None]
            return I.truth(I.call(BoundV(m, cm), args, {}))
    return False


# ------------------------------------------------------------------ native constructors
def to_float(I, v):
    if isinstance(v, Arr):
        if I.np.size_const(v) != 1:
            I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
        v = I.np.get1(I, v)
        if isstr(v):
            raise Unsupported('float of string')
        return T.cast_f(T._num(v))
    v = unwrap(I, v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.throw('ValueError', 'could not convert string to float')
    if isstr(v):
        raise Unsupported('float of a symbolic string')
    if isscalar(v):
        return T.cast_f(T._num(v))
    if I.is_obj(v):
        m = I.cell(v).cls.lookup('__float__')
        if m is not None:
            return I.call(BoundV(m, v), [], {})
    I.throw('TypeError', 'float() argument must be a string or a real number')


def call_native(I, c, a, k):
    n = c.name
    if any(m.name == 'BaseException' for m in c.mro):
        return I.alloc(ObjCell(c, {'args': tuple(a)}))
    if n == 'float':
        return to_float(I, a[0]) if a else 0.0
    if n == 'int':
        if not a:
            return 0
        v = a[0]
        if isinstance(v, Arr):
            if I.np.size_const(v) != 1:
                I.throw('TypeError', 'only length-1 arrays can be converted to Python scalars')
            v = I.np.get1(I, v)
        v = unwrap(I, v)
        if isinstance(v, str):
            try:
                return int(v, *a[1:])
            except ValueError:
                I.throw('ValueError', 'invalid literal for int()')
        if isstr(v):
            return T.mk('strint', (v,), 'i')
        if isinstance(v, float) and not math.isfinite(v):
            I.throw('ValueError' if v != v else 'OverflowError', 'cannot convert to integer')
        if isscalar(v):
            return T.trunc(T._num(v))
        if I.is_obj(v):
            for d in ('__int__', '__index__'):
                m = I.cell(v).cls.lookup(d)
                if m is not None:
                    return I.call(BoundV(m, v), [], {})
        I.throw('TypeError', 'int() argument must be a string or a real number')
    if n == 'bool':
        if not a:
            return False
        if isinstance(a[0], Term):
            return T.tobool(a[0])
        return I.truth(a[0])
    if n == 'str':
        return str_(I, a[0]) if a else ''
    if n == 'list':
        return I.newlist(tolist(I, a[0]) if a else [])
    if n == 'tuple':
        return tuple(tolist(I, a[0])) if a else ()
    if n in ('set', 'frozenset'):
        r = I.newlist([], 'set')
        if a:
            for x in iterate(I, a[0]):
                set_add(I, r, x)
        return r
    if n == 'deque':
        return I.newlist(tolist(I, a[0]) if a else [], 'deque')
    if n in ('dict', 'OrderedDict'):
        r = I.alloc(DictCell({}))
        _dict_method(I, r, 'update').fn(I, a, k)
        return r
    if n == 'defaultdict':
        r = I.alloc(DictCell({}))
        if len(a) > 1:
            _dict_method(I, r, 'update').fn(I, a[1:], k)
        I.heap[r.id].default = a[0] if a else None
        I.heap[r.id].copy = None
        c2 = DefDict(I.heap[r.id].d, a[0] if a else None)
        I.heap[r.id] = c2
        return r
    if n == 'Counter':
        r = I.alloc(DefDict({}, None, 'Counter'))
        if a:
            for x in iterate(I, a[0]):
                setitem(I, r, x, T.add(getitem(I, r, x), 1))
        return r
    if n == 'range':
        xs = [intval(I, x) for x in a]
        if any(isinstance(x, Term) for x in xs):
            raise Unsupported('range over a symbolic extent at %s' % I.site)
        try:
            return range(*xs)
        except ValueError as e:
            I.throw('ValueError', str(e))
    if n == 'type':
        if len(a) == 1:
            return type_(I, a[0])
        raise Unsupported('three-argument type()')
    if n == 'object':
        return I.alloc(ObjCell(NATIVE['object']))
    if n == 'slice':
        return SliceV(*(([None] + a + [None]) if len(a) == 1 else (a + [None])[:3]))
    if n == 'datetime' or n == 'date':
        return mk_dt(I, a, k)
    if n == 'timedelta':
        return mk_timedelta(I, a, k)
    if n in ('float64', 'int64', 'bool_', 'float32', 'number', 'str_'):
        return I.np.cast_scalar(I, DTypeV({'float64': 'f', 'float32': 'g', 'int64': 'i', 'bool_': 'b', 'str_': 'U'}[n]), a)
    if n == 'ndarray':
        raise Unsupported('ndarray constructor')
    if n == 'complex':
        raise Unsupported('complex numbers')
    if n == 'bytes':
        raise Unsupported('bytes')
    raise Unsupported('constructor of ' + n)


class DefDict(DictCell):
    def __init__(self, d, default, kind='defaultdict'):
        self.d, self.default, self.kind = d, default, kind

    def copy(self):
        return DefDict(dict(self.d), self.default, self.kind)


# ------------------------------------------------------------------ datetime
def _intarg(I, v, what):
    if isinstance(v, Arr):
        if I.heap[v.buf].dtype not in 'ib' or v.ndim:
            I.throw('TypeError', "'numpy.float64' object cannot be interpreted as an integer")
    return intval(I, v)


def mk_dt(I, a, k):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
    vals = dict(zip(names, a))
    vals.update({x: y for x, y in k.items() if x in names})
    for n in names[:3]:
        if n not in vals:
            I.throw('TypeError', 'missing required argument ' + n)
    vals = {n: _intarg(I, v, n) for n, v in vals.items()}
    days = 0
    for n, sec in (('hour', 3600.0), ('minute', 60.0), ('second', 1.0), ('microsecond', 1e-6)):
        if n in vals:
            days = T.add(days, T.mul(vals[n], sec / 86400))
    I.events.append(('datetime', vals['year'], vals['month'], vals['day'], I.site))
    return I.alloc(ObjCell(NATIVE['datetime'], {'y': vals['year'], 'm': vals['month'], 'd': vals['day'], 'days': days}))


_TDU = {'days': 1.0, 'seconds': 1 / 86400, 'microseconds': 1e-6 / 86400, 'milliseconds': 1e-3 / 86400,
        'minutes': 60 / 86400, 'hours': 3600 / 86400, 'weeks': 7.0}


def mk_timedelta(I, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    vals = dict(zip(names, a))
    for x, y in k.items():
        if x not in names:
            I.throw('TypeError', 'invalid keyword ' + x)
        vals[x] = y
    days = 0
    for n, v in vals.items():
        days = T.add(days, T.mul(fnum(I, v), _TDU[n]))
    return mk_td(I, days)


def mk_td(I, days):
    return I.alloc(ObjCell(NATIVE['timedelta'], {'days': days}))


def _dt_terms(c):
    f = c.fields
    return (f['y'], f['m'], f['d'], f['days'])


def _dt_attr(I, v, c, name):
    f = c.fields
    simple = T.isnum(f['days']) and f['days'] == 0
    if name in ('__add__', '__radd__', '__sub__', '__rsub__'):
        return BuiltinV(name, lambda I, a, k: dt_binop(I, name.strip('_'), v, a[0]))
    if simple and name in ('year', 'month', 'day'):
        return f[name[0]]
    if name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
        return T.mk('opq', ('dt_' + name,) + _dt_terms(c), 'i')
    if name == 'replace':
        def rep(I, a, k):
            g = dict(f)
            for n, x in k.items():
                if n in ('year', 'month', 'day'):
                    g[n[0]] = x
                elif n != 'tzinfo':
                    raise Unsupported('datetime.replace(%s)' % n)
            return I.alloc(ObjCell(c.cls, g))
        return BuiltinV(name, rep)
    if name == 'strftime':
        return BuiltinV(name, lambda I, a, k: T.mk('strftime', (a[0],) + _dt_terms(c), 's'))
    if name in ('isoformat', '__str__'):
        return BuiltinV(name, lambda I, a, k: T.mk('strdt', _dt_terms(c), 's'))
    if name == 'timetuple':
        def tt(I, a, k):
            y, m, d = f['y'], f['m'], f['d']
            o = OpaqueV('timetuple')
            o.attrs['tm_yday'] = T.mk('opq', ('tm_yday',) + _dt_terms(c), 'i')
            o.attrs.update(tm_year=y, tm_mon=m, tm_mday=d)
            return o
        return BuiltinV(name, tt)
    if name == 'toordinal':
        return BuiltinV(name, lambda I, a, k: T.mk('opq', ('toordinal',) + _dt_terms(c), 'i'))
    return None


def _td_attr(I, v, c, name):
    if name == 'total_seconds':
        return BuiltinV(name, lambda I, a, k: T.mul(c.fields['days'], 86400.0))
    if name == 'days':
        return T.floor(c.fields['days'])
    if name == 'seconds':
        return T.floor(T.mul(T.mod(c.fields['days'], 1), 86400.0))
    return None


def _dt_class_attr(I, c, name):
    if name == 'fromordinal':
        return BuiltinV(name, lambda I, a, k: I.alloc(ObjCell(NATIVE['datetime'], {
            'y': 1, 'm': 1, 'd': 1, 'days': T.sub(_intarg(I, a[0], 'ordinal'), 1)})))
    if name == 'combine' or name in ('strptime', 'now', 'today', 'utcnow', 'fromtimestamp', 'utcfromtimestamp'):
        raise Unsupported('datetime.' + name)
    if name == 'min':
        return None
    return None


def dt_binop(I, op, a, b):
    """datetime/timedelta arithmetic; NOTIMPL if it does not apply."""
    A = I.cell(a) if I.is_obj(a) else None
    Bc = I.cell(b) if I.is_obj(b) else None
    an = A.cls.name if A else None
    bn = Bc.cls.name if Bc else None
    if an in ('datetime', 'date') and bn == 'timedelta' and op in ('add', 'sub', 'radd'):
        f = dict(A.fields)
        f['days'] = (T.sub if op == 'sub' else T.add)(f['days'], Bc.fields['days'])
        return I.alloc(ObjCell(A.cls, f))
    if an == 'timedelta' and bn in ('datetime', 'date') and op == 'add':
        return dt_binop(I, 'add', b, a)
    if an == bn == 'timedelta' and op in ('add', 'sub'):
        return mk_td(I, getattr(T, op)(A.fields['days'], Bc.fields['days']))
    if an == bn == 'timedelta' and op == 'truediv':
        return T.div(A.fields['days'], Bc.fields['days'])
    if an == 'timedelta' and isscalar(unwrap(I, b)) and op in ('mul', 'truediv'):
        return mk_td(I, (T.mul if op == 'mul' else T.div)(A.fields['days'], unwrap(I, b)))
    if bn == 'timedelta' and isscalar(unwrap(I, a)) and op == 'mul':
        return mk_td(I, T.mul(Bc.fields['days'], unwrap(I, a)))
    if an in ('datetime', 'date') and an == bn and op == 'sub':
        ords = [T.add(T.mk('opq', ('toordinal', c.fields['y'], c.fields['m'], c.fields['d'], 0), 'i'), c.fields['days'])
                for c in (A, Bc)]
        return mk_td(I, T.sub(*ords))
    return NOTIMPL


# ------------------------------------------------------------------ library names
_TYPING = ('typing', 'types', '__future__', 'typing_extensions')


def resolve(I, path):
    top = path.split('.')[0]
    if top in _TYPING:
        n = path.split('.')[-1]
        if n in ('Callable', 'Iterable', 'Sequence', 'Iterator', 'Sized', 'Mapping'):
            return OpaqueV('typing.' + n)
        if n == 'TYPE_CHECKING':
            return False
        if n == 'NamedTuple':
            return OpaqueV('typing.NamedTuple')
        if n in ('cast',):
            return BuiltinV('cast', lambda I, a, k: a[1])
        if n in ('overload', 'final', 'runtime_checkable', 'no_type_check'):
            return BuiltinV(n, lambda I, a, k: a[0])
        if n == 'TypeVar' or n == 'NewType':
            return BuiltinV(n, lambda I, a, k: OpaqueV('typing.TypeVar'))
        if n == 'SimpleNamespace':
            def ns(I, a, k):
                return I.alloc(ObjCell(NATIVE['object'], dict(k)))
            return BuiltinV(n, ns)
        return OpaqueV(path if path.startswith('typing') else 'typing.' + path)
    if path in _CONST:
        return _CONST[path]
    n = path.split('.')[-1]
    if path in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag', 'enum.StrEnum', 'abc.ABC', 'datetime.datetime',
                'datetime.timedelta', 'datetime.date', 'collections.deque', 'collections.OrderedDict',
                'collections.defaultdict', 'collections.Counter', 'numbers.Number', 'numbers.Real', 'numbers.Integral',
                'collections.abc.Iterable', 'collections.abc.Sequence', 'collections.abc.Iterator',
                'collections.abc.Callable', 'collections.abc.Sized', 'collections.abc.Mapping'):
        return NATIVE[n]
    if top == 'numpy':
        r = I.np.resolve(I, path)
        if r is not None:
            return r
    return LibV(path)


_CONST = {'math.pi': math.pi, 'math.e': math.e, 'math.inf': math.inf, 'math.nan': math.nan, 'math.tau': math.tau,
          'numpy.newaxis': None, 'os.sep': '/', 'os.linesep': '\n', 'sys.maxsize': 2 ** 63 - 1, 'os.path.sep': '/'}


def _math1(f):
    def g(I, a, k):
        return f(fnum(I, a[0]))
    return g


def _m_sqrt(I, a, k):
    x = fnum(I, a[0])
    if T.isnum(x) and x < 0:
        I.throw('ValueError', 'math domain error')
    return T.sqrt(x)


def _m_log(I, a, k):
    x = fnum(I, a[0])
    if T.isnum(x) and x <= 0:
        I.throw('ValueError', 'math domain error')
    r = T.log(x)
    if len(a) > 1:
        return T.div(r, T.log(fnum(I, a[1])))
    return r


def _m_isclose(I, a, k):
    x, y = fnum(I, a[0]), fnum(I, a[1])
    rt, at = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
    return T.le(T.absv(T.sub(x, y)), T.maximum(T.mul(rt, T.maximum(T.absv(x), T.absv(y))), at))


_MATH = {
    'sin': _math1(T.sin), 'cos': _math1(T.cos), 'tan': _math1(T.tan), 'asin': _math1(T.asin), 'acos': _math1(T.acos),
    'atan': _math1(T.atan), 'exp': _math1(T.exp), 'sinh': _math1(T.sinh), 'cosh': _math1(T.cosh), 'tanh': _math1(T.tanh),
    'sqrt': _m_sqrt, 'log': _m_log, 'floor': _math1(T.floor), 'ceil': _math1(T.ceil), 'trunc': _math1(T.trunc),
    'fabs': _math1(lambda x: T.cast_f(T.absv(x))),
    'radians': _math1(lambda x: T.mul(x, math.pi / 180)), 'degrees': _math1(lambda x: T.mul(x, 180 / math.pi)),
    'atan2': lambda I, a, k: T.atan2(fnum(I, a[0]), fnum(I, a[1])),
    'hypot': lambda I, a, k: T.sqrt(_tsum([T.power(fnum(I, x), 2) for x in a])),
    'pow': lambda I, a, k: T.power(T.cast_f(fnum(I, a[0])), fnum(I, a[1])),
    'fmod': lambda I, a, k: T.fmod(fnum(I, a[0]), fnum(I, a[1])),
    'isnan': _math1(lambda x: T.not_(T.eq(x, x)) if T.isnum(x) else T.mk('isnan', (x,), 'b')),
    'isfinite': _math1(lambda x: math.isfinite(x) if T.isnum(x) else T.mk('isfinite', (x,), 'b')),
    'isinf': _math1(lambda x: math.isinf(x) if T.isnum(x) else T.mk('isinf', (x,), 'b')),
    'copysign': lambda I, a, k: T.ite(T.lt(fnum(I, a[1]), 0), T.neg(T.absv(fnum(I, a[0]))), T.absv(fnum(I, a[0]))),
    'isclose': _m_isclose,
    'fsum': lambda I, a, k: _tsum([fnum(I, x) for x in iterate(I, a[0])]),
    'prod': lambda I, a, k: _tprod([fnum(I, x) for x in iterate(I, a[0])]),
    'log10': _math1(lambda x: T.div(T.log(x), math.log(10))),
    'log2': _math1(lambda x: T.div(T.log(x), math.log(2))),
    'modf': lambda I, a, k: (T.fmod(fnum(I, a[0]), 1.0), T.cast_f(T.trunc(fnum(I, a[0])))),
    'dist': lambda I, a, k: T.sqrt(_tsum([T.power(T.sub(fnum(I, x), fnum(I, y)), 2)
                                         for x, y in zip(tolist(I, a[0]), tolist(I, a[1]))])),
    'cbrt': _math1(lambda x: T.power(x, 1 / 3)),
    'expm1': _math1(lambda x: T.sub(T.exp(x), 1)),
}


def _tsum(xs):
    r = 0.0
    for x in xs:
        r = T.add(r, x)
    return r


def _tprod(xs):
    r = 1
    for x in xs:
        r = T.mul(r, x)
    return r


# ------------------------------------------------------------------ copy
def deepcopy(I, v, memo=None, shallow=False):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = I.cell(v)
        if isinstance(c, ObjCell) and isinstance(c.cls, ClassV):
            m = c.cls.lookup('__deepcopy__')
            if m is not None:
                r = I.call(BoundV(m, v), [I.alloc(DictCell({}))], {})
                memo[v.id] = r
                return r
            if c.cls.lookup('__reduce__') or c.cls.lookup('__getstate__'):
                raise Unsupported('custom copy protocol in ' + c.cls.name)
        n = c.copy()
        r = I.alloc(n)
        memo[v.id] = r
        if isinstance(n, ObjCell):
            n.fields = {k: deepcopy(I, x, memo) for k, x in n.fields.items()}
        elif isinstance(n, ListCell):
            n.segs = [Seg(items=[deepcopy(I, x, memo) for x in c.items])]
        elif isinstance(n, DictCell):
            n.d = {deepcopy(I, k, memo) if isinstance(k, Ref) else k: deepcopy(I, x, memo) for k, x in n.d.items()}
        return r
    if isinstance(v, Arr):
        if id(v) in memo:
            return memo[id(v)]
        data = [deepcopy(I, x, memo) for x in I.np.elems(I, v)]
        r = I.newarr(data, v.idx.shape, I.heap[v.buf].dtype, v.zero)
        memo[id(v)] = r
        memo[('keep', id(v))] = v
        return r
    if isinstance(v, tuple):
        t = tuple(deepcopy(I, x, memo) for x in v)
        if getattr(v, 'ntcls', None) is not None:
            return mknt(v.ntcls, v.ntfields, t)
        return t
    if isinstance(v, BoundV) and isinstance(v.self_, Ref):
        return BoundV(v.func, deepcopy(I, v.self_, memo))
    return v


def shallow(I, v):
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ObjCell) and isinstance(c.cls, ClassV):
            m = c.cls.lookup('__copy__')
            if m is not None:
                return I.call(BoundV(m, v), [], {})
        return I.alloc(c.copy())
    if isinstance(v, Arr):
        return I.np.copy(I, v)
    return v


# ------------------------------------------------------------------ random
def _rand(I):
    s = I.fresh('random', 'f')
    I.events.append(('random', I.site, s))
    return s


def _choice(I, a, k):
    xs = tolist(I, a[0])
    if not xs:
        I.throw('IndexError', 'Cannot choose from an empty sequence')
    i = I.choose(len(xs))
    I.events.append(('choice', len(xs), i, I.site))
    return xs[i]


def _choices(I, a, k):
    xs = tolist(I, a[0])
    w = a[1] if len(a) > 1 else k.get('weights')
    cw = k.get('cum_weights')
    n = k.get('k', 1)
    ws = tolist(I, w) if w is not None else None
    cws = tolist(I, cw) if cw is not None else None
    if ws is not None and len(ws) != len(xs):
        I.throw('ValueError', 'The number of weights does not match the population')
    if not xs:
        I.throw('IndexError', 'list index out of range')
    out = []
    for _ in range(n):
        i = I.choose(len(xs))
        I.events.append(('choices', tuple(xs), tuple(ws) if ws is not None else None, i,
                         tuple(cws) if cws is not None else None, I.site))
        out.append(xs[i])
    return I.newlist(out)


def _sample(I, a, k):
    xs = tolist(I, a[0])
    n = intval(I, a[1] if len(a) > 1 else k['k'])
    if not isinstance(n, int):
        n = concretize(I, n, 0, len(xs))
        if n is None:
            I.throw('ValueError', 'Sample larger than population')
    if n > len(xs) or n < 0:
        I.throw('ValueError', 'Sample larger than population or is negative')
    out = []
    for _ in range(n):
        i = I.choose(len(xs))
        out.append(xs.pop(i))
    I.events.append(('sample', n, I.site))
    return I.newlist(out)


def _shuffle(I, a, k):
    xs = tolist(I, a[0])
    out = []
    while xs:
        out.append(xs.pop(I.choose(len(xs))))
    I.wcell(a[0].id).segs = [Seg(items=out)]


def _randint(I, a, k, off=1):
    lo, hi = intval(I, a[0]), intval(I, a[1])
    if isinstance(lo, Term) or isinstance(hi, Term):
        raise Unsupported('randint with symbolic bounds')
    if hi - lo + off <= 0:
        I.throw('ValueError', 'empty range')
    return lo + I.choose(hi - lo + off)


def _randrange(I, a, k):
    r = range(*[intval(I, x) for x in a])
    if not len(r):
        I.throw('ValueError', 'empty range for randrange()')
    return r[I.choose(len(r))]


_RANDOM = {'random': lambda I, a, k: _rand(I), 'choice': _choice, 'choices': _choices, 'sample': _sample,
           'shuffle': _shuffle, 'randint': _randint, 'randrange': _randrange,
           'uniform': lambda I, a, k: T.add(a[0], T.mul(T.sub(a[1], a[0]), _rand(I))),
           'seed': lambda I, a, k: None}


# ------------------------------------------------------------------ itertools / functools ...
class NT(tuple):
    pass


def mknt(cls, fields, vals):
    t = NT(vals)
    t.ntcls, t.ntfields = cls, list(fields)
    return t


def _namedtuple(I, a, k):
    name = a[0]
    f = a[1]
    fields = f.replace(',', ' ').split() if isinstance(f, str) else tolist(I, f)
    cls = NativeClass('nt:%s:%s' % (name, ','.join(fields)), [NATIVE['tuple']])

    def new(I, a, k):
        vals = list(a)
        for x in fields[len(vals):]:
            if x not in k:
                I.throw('TypeError', 'missing argument ' + x)
            vals.append(k[x])
        if len(vals) > len(fields):
            I.throw('TypeError', 'too many arguments')
        return mknt(cls, fields, vals)
    b = OpaqueV('class:' + name, cls=cls, call=new)
    return b


def _partial(I, a, k):
    f, pre = a[0], a[1:]
    return BuiltinV('partial', lambda I, b, kk: I.call(f, list(pre) + list(b), {**k, **kk}))


def _reduce(I, a, k):
    xs = tolist(I, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            I.throw('TypeError', 'reduce() of empty iterable with no initial value')
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = I.call(a[0], [acc, x], {})
    return acc


def _cache(I, f):
    r = I.alloc(ListCell([Seg(items=[])]))

    def go(I, a, k):
        kk = tuple(key(I, x) for x in a) + tuple((n, key(I, x)) for n, x in sorted(k.items()))
        for q, v in I.cell(r).items:
            if q == kk:
                return v
        v = I.call(f, a, k)
        I.list_append(r, (kk, v))
        return v
    b = FuncLike('cached', go)
    return b


class FuncLike(BuiltinV):
    """A builtin that binds as a method."""


def _lru_cache(I, a, k):
    if len(a) == 1 and isinstance(a[0], (FuncV, BuiltinV)):
        return _cache(I, a[0])
    return BuiltinV('lru_cache', lambda I, b, kk: _cache(I, b[0]))


def _cached_property(I, a, k):
    f = a[0]

    def get(I, b, kk):
        c = I.cell(b[0])
        n = '__cached_' + f.name
        if n in c.fields:
            return c.fields[n]
        v = I.call(f, [b[0]], {})
        I.wcell(b[0].id).fields[n] = v
        return v
    return PropertyV(BuiltinV('cached_property', get))


def _cmp_to_key(I, a, k):
    f = a[0]

    def mk(I, b, kk):
        x = b[0]
        o = OpaqueV('cmpkey')
        o.val = x
        o.methods['cmp_lt'] = lambda I, y: I.compare('lt', I.call(f, [x, y.val], {}), 0)
        o.methods['cmp_gt'] = lambda I, y: I.compare('gt', I.call(f, [x, y.val], {}), 0)
        return o
    return BuiltinV('cmp_to_key', mk)


def _itemgetter(I, a, k):
    if len(a) == 1:
        return BuiltinV('itemgetter', lambda I, b, kk: getitem(I, b[0], a[0]))
    return BuiltinV('itemgetter', lambda I, b, kk: tuple(getitem(I, b[0], x) for x in a))


def _attrgetter(I, a, k):
    def g(I, o, path):
        for p in path.split('.'):
            o = I.getattr_(o, p)
        return o
    if len(a) == 1:
        return BuiltinV('attrgetter', lambda I, b, kk: g(I, b[0], a[0]))
    return BuiltinV('attrgetter', lambda I, b, kk: tuple(g(I, b[0], x) for x in a))


def _methodcaller(I, a, k):
    return BuiltinV('methodcaller', lambda I, b, kk: I.call(I.getattr_(b[0], a[0]), list(a[1:]), k))


def _groupby(I, a, k):
    kf = a[1] if len(a) > 1 else k.get('key')
    groups = []
    for x in tolist(I, a[0]):
        kv = x if kf is None else I.call(kf, [x], {})
        if groups and I.truth(elem_eq(I, groups[-1][0], kv)):
            groups[-1][1].append(x)
        else:
            groups.append((kv, [x]))
    return mkiter(I, I.newlist([(kv, mkiter(I, I.newlist(xs))) for kv, xs in groups]))


def _product(I, a, k):
    import itertools
    ls = [tolist(I, x) for x in a] * k.get('repeat', 1)
    return mkiter(I, I.newlist(list(itertools.product(*ls))))


def _combin(kind):
    def f(I, a, k):
        import itertools
        n = a[1] if len(a) > 1 else k.get('r')
        xs = tolist(I, a[0])
        return mkiter(I, I.newlist(list(getattr(itertools, kind)(xs, n) if n is not None else
                                        getattr(itertools, kind)(xs))))
    return f


def _accumulate(I, a, k):
    f = a[1] if len(a) > 1 else k.get('func')
    out = []
    acc = k.get('initial')
    if acc is not None:
        out.append(acc)
    for x in tolist(I, a[0]):
        acc = x if acc is None else (I.binop('add', acc, x) if f is None else I.call(f, [acc, x], {}))
        out.append(acc)
    return mkiter(I, I.newlist(out))


def _islice(I, a, k):
    src = mkiter(I, a[0])
    args = [None if x is None else intval(I, x) for x in a[1:]]
    s = slice(*args)
    start, stop, step = s.start or 0, s.stop, s.step or 1
    out, i = [], 0
    while stop is None or i < stop:
        x = iter_next(I, src)
        if x is STOP:
            break
        if i >= start and (i - start) % step == 0:
            out.append(x)
        i += 1
        if i > 10000:
            raise Unsupported('unbounded islice')
    return mkiter(I, I.newlist(out))


def _chain(I, a, k):
    out = []
    for x in a:
        out.extend(tolist(I, x))
    return mkiter(I, I.newlist(out))


def _pairwise(I, a, k):
    xs = tolist(I, a[0])
    return mkiter(I, I.newlist(list(zip(xs, xs[1:]))))


def _zip_longest(I, a, k):
    import itertools
    return mkiter(I, I.newlist(list(itertools.zip_longest(*[tolist(I, x) for x in a], fillvalue=k.get('fillvalue')))))


def _dropwhile(I, a, k):
    xs = tolist(I, a[1])
    i = 0
    while i < len(xs) and I.truth(I.call(a[0], [xs[i]], {})):
        i += 1
    return mkiter(I, I.newlist(xs[i:]))


def _starmap(I, a, k):
    return mkiter(I, I.newlist([I.call(a[0], tolist(I, x), {}) for x in tolist(I, a[1])]))


def _repeat(I, a, k):
    n = a[1] if len(a) > 1 else k.get('times')
    if n is None:
        return mk_it(I, kind='repeat', val=a[0])
    return mkiter(I, I.newlist([a[0]] * intval(I, n)))


def _compress(I, a, k):
    return mkiter(I, I.newlist([x for x, s in zip(tolist(I, a[0]), tolist(I, a[1])) if I.truth(s)]))


_OPER = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'truediv', 'mod': 'mod', 'pow': 'pow', 'matmul': 'matmul',
         'floordiv': 'floordiv', 'and_': 'and', 'or_': 'or', 'xor': 'xor'}


def _suppress(I, a, k):
    o = OpaqueV('suppress')
    o.enter = lambda I: None
    o.exit = lambda I, e: e is not None and any(I.exc_match(e, c) for c in a)
    return o


def _closing(I, a, k):
    o = OpaqueV('closing')
    o.enter = lambda I: a[0]
    o.exit = lambda I, e: I.call(I.getattr_(a[0], 'close'), [], {}) and False
    return o


def _nullcontext(I, a, k):
    o = OpaqueV('nullcontext')
    o.enter = lambda I: a[0] if a else None
    o.exit = lambda I, e: False
    return o


def _contextmanager(I, a, k):
    f = a[0]

    def mk(I, b, kk):
        o = OpaqueV('contextmanager')
        o.gen = (f, b, kk)
        return o
    return FuncLike('contextmanager', mk)


# ------------------------------------------------------------------ dataclasses
def _dataclass(I, a, k):
    if a and isinstance(a[0], ClassV):
        return mk_dataclass(I, a[0], {})
    return BuiltinV('dataclass', lambda I, b, kk: mk_dataclass(I, b[0], k))


def mk_dataclass(I, cls, opts):
    fields = []
    for c in reversed(cls.mro):
        for n in c.ns.get('__annotations__', []):
            if n in [f[0] for f in fields]:
                fields = [f for f in fields if f[0] != n]
            d = c.ns.get(n, STOP)
            fields.append((n, d))
    cls.dcfields = fields

    def init(I, a, k):
        self = a[0]
        vals = list(a[1:])
        names = [n for n, d in fields if not (isinstance(d, OpaqueV) and d.name == 'dcfield' and d.attrs.get('init') is False)]
        got = dict(zip(names, vals))
        if len(vals) > len(names):
            I.throw('TypeError', '__init__() takes too many positional arguments')
        for n, v in k.items():
            if n not in names or n in got:
                I.throw('TypeError', 'unexpected keyword argument ' + n)
            got[n] = v
        for n, d in fields:
            if n in got:
                v = got[n]
            elif isinstance(d, OpaqueV) and d.name == 'dcfield':
                if 'default_factory' in d.attrs:
                    v = I.call(d.attrs['default_factory'], [], {})
                elif 'default' in d.attrs:
                    v = d.attrs['default']
                else:
                    I.throw('TypeError', 'missing argument ' + n)
            elif d is not STOP:
                v = d
            else:
                I.throw('TypeError', 'missing required argument ' + n)
            I.wcell(self.id).fields[n] = v
        post = cls.lookup('__post_init__')
        if post is not None:
            I.call(BoundV(post, self), [], {})

    def eq(I, a, k):
        if not I.is_obj(a[1]) or I.cell(a[1]).cls is not I.cell(a[0]).cls:
            return NOTIMPL
        x = tuple(I.cell(a[0]).fields[n] for n, _ in fields)
        y = tuple(I.cell(a[1]).fields[n] for n, _ in fields)
        return I.compare('eq', x, y)

    def rep(I, a, k):
        out = [cls.name + '(']
        for i, (n, _) in enumerate(fields):
            out += ([', '] if i else []) + [n + '=', repr_(I, I.cell(a[0]).fields[n])]
        return T.cat(*(out + [')']))
    if opts.get('init', True) and '__init__' not in cls.ns:
        cls.ns['__init__'] = BuiltinV('dataclass.__init__', init)
    if opts.get('eq', True) and '__eq__' not in cls.ns:
        cls.ns['__eq__'] = BuiltinV('dataclass.__eq__', eq)
        if opts.get('frozen') and '__hash__' not in cls.ns:
            cls.ns['__hash__'] = BuiltinV('dataclass.__hash__', lambda I, a, k: 0)
    if opts.get('repr', True) and '__repr__' not in cls.ns:
        cls.ns['__repr__'] = BuiltinV('dataclass.__repr__', rep)
    if opts.get('order'):
        for o in ('lt', 'le', 'gt', 'ge'):
            def cmp(I, a, k, o=o):
                x = tuple(I.cell(a[0]).fields[n] for n, _ in fields)
                y = tuple(I.cell(a[1]).fields[n] for n, _ in fields)
                return I.compare(o, x, y)
            cls.ns['__%s__' % o] = BuiltinV('dataclass.' + o, cmp)
    if opts.get('frozen'):
        cls.frozen = True
    return cls


def _field(I, a, k):
    return OpaqueV('dcfield', attrs=dict(k))


def _dc_replace(I, a, k):
    c = I.cell(a[0])
    f = {n: c.fields[n] for n, _ in c.cls.dcfields}
    f.update(k)
    return I.call(c.cls, [], f)


def _total_ordering(I, a, k):
    cls = a[0]
    have = [o for o in ('lt', 'le', 'gt', 'ge') if cls.has('__%s__' % o)]
    if not have:
        I.throw('ValueError', 'must define at least one ordering operation')
    o = have[0]

    def base(I, x, y):
        return I.call(BoundV(cls.lookup('__%s__' % o), x), [y], {})

    def lt(I, x, y):
        if o == 'lt':
            return base(I, x, y)
        if o == 'gt':
            return base(I, y, x)
        if o == 'le':
            return I.truth(base(I, x, y)) and I.truth(I.compare('ne', x, y))
        return I.truth(I.not_val(base(I, x, y)))
    tab = {'lt': lambda I, a, k: lt(I, a[0], a[1]), 'gt': lambda I, a, k: lt(I, a[1], a[0]),
           'le': lambda I, a, k: I.not_val(lt(I, a[1], a[0])), 'ge': lambda I, a, k: I.not_val(lt(I, a[0], a[1]))}
    for n, f in tab.items():
        if n not in have:
            cls.ns['__%s__' % n] = BuiltinV('ordering.' + n, f)
    return cls


# ------------------------------------------------------------------ SPK
def mk_kernel(I, path):
    I.nfresh += 1
    kid = 'spk#%d' % I.nfresh
    I.events.append(('open', kid, path, 'spk', None, {}, I.site))
    o = OpaqueV('kernel', cls=NativeClass('lib:jplephem.spk.SPK', [NATIVE['object']]))
    o.fid = kid

    def seg(I, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            I.throw('KeyError', 'segment')
        k = tuple(unwrap(I, x) for x in k)
        s = OpaqueV('segment')

        def compute(I, a, kw):
            I.events.append(('use', kid, I.site))
            h = I.hooks.get('spk.compute')
            if h is None:
                raise Unsupported('SPK compute')
            t = a[0]
            if len(a) > 1 or kw:
                t = I.binop('add', t, a[1] if len(a) > 1 else kw.get('tdb2', 0))
            return h(I, k, t)
        s.methods['compute'] = compute

        def cad(I, a, kw):
            p = compute(I, a, kw)
            v = I.np.map1(I, lambda x: T.opaque('spkvel', (x,), 'f'), p)
            return (p, v)
        s.methods['compute_and_differentiate'] = cad
        return s
    o.methods['getitem'] = seg
    close = lambda I, a, k: I.events.append(('close', kid, I.site))
    o.methods['close'] = close
    o.enter = lambda I: o
    o.exit = lambda I, e: close(I, [], {})
    return o


def _path(I, a, k):
    o = OpaqueV('path')
    o.attrs['strval'] = 'path'
    o.any_attr = lambda I, n: _path(I, [], {}) if n in ('parent', 'parents') else BuiltinV(
        n, lambda I, a, k: True if n in ('exists', 'is_file') else _path(I, [], {}))
    o.methods['truediv'] = lambda I, y: _path(I, [], {})
    o.methods['getitem'] = lambda I, y: _path(I, [], {})
    return o


def _fspath(I, v):
    """The string a path stands for."""
    if isinstance(v, OpaqueV) and v.name == 'path':
        return v.attrs.get('strval')
    return v


def _pathlib(I, a, k):
    a = [_fspath(I, unwrap(I, x)) for x in a]
    if not a or not all(isstr(x) for x in a) or any(isinstance(x, str) and ('celest' in x or x.startswith('path:')) for x in a):
        return _path(I, a, k)
    parts = [a[0]]
    for x in a[1:]:
        parts += ['/', x]
    name = T.cat(*parts)
    o = OpaqueV('path')
    o.attrs['strval'] = name
    m = o.methods
    m['open'] = lambda I, a, k: mk_file(I, [name] + list(a), k)

    def write_text(I, a, k):
        k = dict(k)
        f = mk_file(I, [name, 'w'], {q: v for q, v in k.items() if q != 'data'} if len(a) < 2 else {'encoding': a[1]})
        try:
            n = f.methods['write'](I, [a[0] if a else k['data']], {})
        finally:
            f.methods['close'](I, [], {})
        return n
    m['write_text'] = write_text
    m['truediv'] = lambda I, y: _pathlib(I, [name, y], {})
    for q in ('exists', 'is_file', 'is_dir'):
        m[q] = lambda I, a, k: I.fresh('exists', 'b')
    if isinstance(name, str):
        import pathlib
        p = pathlib.PurePosixPath(name)
        o.attrs.update(suffix=p.suffix, name=p.name, stem=p.stem)
        for q in ('with_suffix', 'with_name', 'with_stem'):
            m[q] = lambda I, a, k, q=q: _pathlib(I, [str(getattr(p, q)(a[0]))], {})
        m['as_posix'] = lambda I, a, k: p.as_posix()
        for q in ('resolve', 'absolute', 'expanduser'):
            m[q] = lambda I, a, k: o
        o.any_attr = lambda I, n: _pathlib(I, [str(p.parent)], {}) if n == 'parent' else _nopath(n)
    return o


def _nopath(n):
    raise Unsupported('pathlib.Path.%s' % n)


def _stringio(I, a, k):
    parts = I.newlist([unwrap(I, a[0])] if a else [])
    f = OpaqueV('file')

    def write(I, a, k):
        v = unwrap(I, a[0])
        if not isstr(v):
            I.throw('TypeError', 'string argument expected')
        I.wcell(parts.id).segs.append(Seg(items=[v]))
        return len_(I, v)

    def writelines(I, a, k):
        for x in iterate(I, a[0]):
            write(I, [x], {})

    def getvalue(I, a, k):
        xs = tolist(I, parts)
        return T.cat(*xs) if xs else ''
    if a:
        def write(I, a, k):
            raise Unsupported('io.StringIO with initial contents')
    f.methods.update(write=write, writelines=writelines, getvalue=getvalue, close=lambda I, a, k: None, flush=lambda I, a, k: None)
    f.enter = lambda I: f
    f.exit = lambda I, e: None
    return f


def _inert(name):
    o = OpaqueV(name)
    o.any_attr = lambda I, n: _inert(name + '.' + n)
    o.call = lambda I, a, k: _inert(name + '()')
    return o


def _ospath(name):
    def f(I, a, k):
        if all(isinstance(x, str) for x in a):
            return getattr(os.path, name)(*a)
        if name in ('exists', 'isfile', 'isdir'):
            return I.fresh('exists', 'b')
        if name == 'splitext':
            v = T.opaque('splitext0', tuple(a), 's')
            return (v, T.opaque('splitext1', tuple(a), 's'))
        if name in ('abspath', 'normpath', 'realpath', 'expanduser'):
            return a[0]
        return T.opaque('ospath.' + name, tuple(str_(I, x) for x in a), 's')
    return f


_LIB = {
    'pkgutil.extend_path': lambda I, a, k: a[0],
    'copy.deepcopy': lambda I, a, k: deepcopy(I, a[0]),
    'copy.copy': lambda I, a, k: shallow(I, a[0]),
    'functools.partial': _partial, 'functools.reduce': _reduce, 'functools.lru_cache': _lru_cache,
    'functools.cache': lambda I, a, k: _cache(I, a[0]), 'functools.cached_property': _cached_property,
    'functools.wraps': lambda I, a, k: BuiltinV('wraps', lambda I, b, kk: b[0]),
    'functools.cmp_to_key': _cmp_to_key, 'functools.total_ordering': _total_ordering,
    'operator.itemgetter': _itemgetter, 'operator.attrgetter': _attrgetter, 'operator.methodcaller': _methodcaller,
    'operator.neg': lambda I, a, k: I.unop('neg', a[0]), 'operator.not_': lambda I, a, k: I.not_val(a[0]),
    'operator.getitem': lambda I, a, k: getitem(I, a[0], a[1]),
    'operator.abs': lambda I, a, k: _abs(I, a, k),
    'operator.contains': lambda I, a, k: contains(I, a[0], a[1]),
    'itertools.chain': _chain, 'itertools.product': _product, 'itertools.combinations': _combin('combinations'),
    'itertools.permutations': _combin('permutations'), 'itertools.accumulate': _accumulate, 'itertools.groupby': _groupby,
    'itertools.chain.from_iterable': lambda I, a, k: _chain(I, tolist(I, a[0]), {}),
    'itertools.islice': _islice, 'itertools.pairwise': _pairwise, 'itertools.zip_longest': _zip_longest,
    'itertools.takewhile': lambda I, a, k: mk_it(I, kind='takewhile', fn=a[0], src=mkiter(I, a[1])),
    'itertools.dropwhile': _dropwhile, 'itertools.starmap': _starmap, 'itertools.repeat': _repeat,
    'itertools.compress': _compress,
    'itertools.filterfalse': lambda I, a, k: mk_it(I, kind='filter', fn=a[0], src=mkiter(I, a[1]), neg=True),
    'itertools.count': lambda I, a, k: mk_it(I, kind='count', cur=a[0] if a else k.get('start', 0),
                                             step=a[1] if len(a) > 1 else k.get('step', 1)),
    'itertools.cycle': lambda I, a, k: mk_it(I, kind='cycle', src=I.newlist(tolist(I, a[0])), pos=0),
    'collections.namedtuple': _namedtuple,
    'dataclasses.dataclass': _dataclass, 'dataclasses.field': _field, 'dataclasses.replace': _dc_replace,
    'contextlib.suppress': _suppress, 'contextlib.closing': _closing, 'contextlib.contextmanager': _contextmanager,
    'contextlib.nullcontext': _nullcontext,
    'abc.abstractmethod': lambda I, a, k: a[0],
    'enum.auto': lambda I, a, k: OpaqueV('enum.auto'),
    'enum.unique': lambda I, a, k: a[0],
    'warnings.warn': lambda I, a, k: I.events.append(('warn', a[0], I.site)),
    'warnings.catch_warnings': lambda I, a, k: _nullcontext(I, [], {}),
    'warnings.simplefilter': lambda I, a, k: None, 'warnings.filterwarnings': lambda I, a, k: None,
    'pkg_resources.resource_filename': lambda I, a, k: 'path:' + '/'.join(str(x) for x in a[1:]),
    'importlib.resources.files': _path, 'importlib.resources.as_file': lambda I, a, k: _nullcontext(I, a, k),
    'pathlib.Path': _pathlib, 'pathlib.PurePath': _pathlib, 'io.StringIO': _stringio,
    'os.fspath': lambda I, a, k: _fspath(I, a[0]), 'io.open': lambda I, a, k: mk_file(I, a, k),
    'jplephem.spk.SPK.open': lambda I, a, k: mk_kernel(I, a[0] if a else None),
    'jplephem.spk.SPK.close': lambda I, a, k: I.events.append(('close', a[0].fid, I.site)),
    'codecs.open': lambda I, a, k: mk_file(I, a[:2], dict(k, encoding=a[2]) if len(a) > 2 else k),
    'os.getcwd': lambda I, a, k: '.',
    'os.makedirs': lambda I, a, k: None,
    'logging.getLogger': lambda I, a, k: _inert('logger'),
    'pkgutil.extend_path': lambda I, a, k: a[0],
    'bisect.bisect_left': lambda I, a, k: _bisect(I, a, k, 'lt'),
    'bisect.bisect_right': lambda I, a, k: _bisect(I, a, k, 'le'),
    'bisect.bisect': lambda I, a, k: _bisect(I, a, k, 'le'),
    'heapq.nlargest': lambda I, a, k: I.newlist(sort_items(I, tolist(I, a[1]), k.get('key'), True)[:a[0]]),
    'heapq.nsmallest': lambda I, a, k: I.newlist(sort_items(I, tolist(I, a[1]), k.get('key'), False)[:a[0]]),
    'statistics.mean': lambda I, a, k: (lambda xs: I.binop('truediv', _sum(I, [I.newlist(xs)], {}), len(xs)))(tolist(I, a[0])),
}


def _bisect(I, a, k, op):
    xs = tolist(I, a[0])
    kf = k.get('key')
    n = 0
    for x in xs:
        y = x if kf is None else I.call(kf, [x], {})
        if I.truth(I.compare(op, y, a[1])):
            n += 1
        else:
            break
    return n


def call_lib(I, path, a, k):
    h = I.hooks.get(path)
    if h is not None:
        r = h(I, None, a, k)
        if r is not NOTIMPL:
            return r
    if path in _LIB:
        return _LIB[path](I, a, k)
    top, _, rest = path.partition('.')
    if top == 'numpy':
        return I.np.call_path(I, path, a, k)
    if top == 'math' and rest in _MATH:
        try:
            return _MATH[rest](I, a, k)
        except (ValueError, OverflowError) as e:
            I.throw(type(e).__name__, str(e))
    if top == 'random' and rest in _RANDOM:
        return _RANDOM[rest](I, a, k)
    if top == 'operator':
        if rest in _OPER:
            return I.binop(_OPER[rest], a[0], a[1])
        if rest in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return I.compare(rest, a[0], a[1])
        if rest in ('is_', 'is_not'):
            r = is_(I, a[0], a[1])
            return r if rest == 'is_' else I.not_val(r)
        if rest in ('iadd', 'isub', 'imul', 'itruediv'):
            return I.iop(rest[1:], a[0], a[1])
    if path.startswith('os.path.'):
        return _ospath(path.split('.')[-1])(I, a, k)
    if top == 'logging':
        return None
    raise Unsupported('library call %s at %s' % (path, I.site))
