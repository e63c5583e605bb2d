"""Model of the numpy operations the analysed code uses (and many it might).

Arrays have concrete shapes and symbolic elements.  Operations that only move
elements are carried out by numpy itself on object arrays of value graph
nodes; element-wise operations build nodes; operations whose result depends on
the order of elements (argmin, sort, masks as indices) split the trace on the
comparisons they need.
"""
import math
import numpy as np
from . import terms as T
from .terms import Term
from .values import *

_RANK = {'b': 0, 'i': 1, 'g': 2, 'f': 3, 'U': 4, 'O': 5}
NAMES = {'f': 'float64', 'i': 'int64', 'b': 'bool_', 'U': 'str_', 'O': 'object_', 'g': 'float32'}


# ------------------------------------------------------------------ conversion
def dtype_of(I, x):
    if isinstance(x, Arr):
        return I.heap[x.buf].dtype
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    if isinstance(x, str):
        return 'U'
    if isinstance(x, Term):
        return {'f': 'f', 'i': 'i', 'b': 'b', 's': 'U'}.get(x.sort, 'O')
    if isinstance(x, EnumV) and any(c.name in ('IntEnum', 'IntFlag') for c in x.cls.mro):
        return 'i'
    return 'O'


def promote(*ds):
    ds = [d for d in ds if d]
    r = max(ds, key=lambda d: _RANK[d]) if ds else 'f'
    if r == 'g' and 'i' in ds:
        return 'f'
    return r


def cast(x, d):
    if d == 'f':
        return T.cast_f(T._num(x)) if not isinstance(x, float) else x
    if d == 'g':
        return T.f32(x)
    if d == 'i':
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, float) and not math.isfinite(x):
            return -2 ** 63
        return T.trunc(T._num(x))
    if d == 'b':
        return T.tobool(x) if isinstance(x, Term) else bool(x)
    return x


def elems(I, a):
    """Flat list of the elements of a."""
    d = I.heap[a.buf].data
    return list(d[a.idx.ravel()])


def tonp(I, v):
    """(object ndarray, dtype) of an array-like."""
    if isinstance(v, Arr):
        b = I.heap[v.buf]
        return b.data[v.idx] if v.ndim else _box(b.data[int(v.idx)]), b.dtype
    seq = _seq(I, v)
    if seq is None:
        if isinstance(v, EnumV) and dtype_of(I, v) == 'i':
            v = v.value
        return _box(v), dtype_of(I, v)
    parts = [tonp(I, x) for x in seq]
    if not parts:
        return np.empty((0,), dtype=object), 'f'
    sh = parts[0][0].shape
    if any(p[0].shape != sh for p in parts):
        I.throw('ValueError', 'setting an array element with a sequence: inhomogeneous shape')
    d = promote(*[p[1] for p in parts])
    out = np.empty((len(parts),) + sh, dtype=object)
    for i, p in enumerate(parts):
        out[i] = _conv(I, p[0], p[1], d) if sh else _conv(I, p[0], p[1], d)[()]
    return out, d


def _seq(I, v):
    if isinstance(v, (tuple, range)):
        return list(v)
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListCell) and c.kind in ('list', 'deque'):
            return c.items
        if isinstance(c, ObjCell) and isinstance(c.cls, ClassV):
            m = c.cls.lookup('__array__')
            if m is not None:
                r = I.call(BoundV(m, v), [], {})
                return iter_arr(I, r) if isinstance(r, Arr) and r.ndim else None
            if c.cls.lookup('__len__') and c.cls.lookup('__getitem__'):
                n = I.libs.len_(I, v)
                if isinstance(n, int):
                    return [I.getitem(v, i) for i in range(n)]
    return None


def _box(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def _map(a, f):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return out


def _conv(I, a, d0, d):
    if d0 == d:
        return a
    if d == 'U':
        return _map(a, lambda x: I.libs.str_(I, x))
    if d0 == 'U' and d in 'fig':
        c = I.libs.NATIVE['float' if d != 'i' else 'int']
        return _map(a, lambda x: cast(I.call(c, [x], {}), d))
    if d0 == 'O' and d in 'figb':
        def f(x):
            if isinstance(x, Arr):
                if x.size != 1:
                    I.throw('ValueError', 'setting an array element with a sequence.')
                x = elems(I, x)[0]
            if d == 'b':
                return T.tobool(x) if isinstance(x, Term) else I.truth(x)
            if x is None:
                if d in 'fg':
                    return float('nan')
                I.throw('TypeError', "int() argument must be a number, not 'NoneType'")
            return cast(I.libs.to_float(I, x) if d != 'i' else x, d)
        return _map(a, f)
    return _map(a, lambda x: cast(x, d))


def mkarr(I, a, d, zero=False):
    """New array from an object ndarray."""
    a = a if isinstance(a, np.ndarray) else _box(a)
    if d == 'O' and a.ndim == 0 and not zero:
        return a[()]
    return I.newarr(a.reshape(-1), a.shape, d, zero)


def auto(I, a):
    """New array with the dtype read off its elements."""
    a = a if isinstance(a, np.ndarray) else _box(a)
    d = promote(*[dtype_of(I, x) for x in a.reshape(-1)]) if a.size else 'f'
    return mkarr(I, _map(a, lambda x: cast(x, d)), d)


def scalar(I, v, d=None):
    d = d or dtype_of(I, v)
    if d == 'O':
        return v
    return I.newarr([cast(v, d)], (), d)


def asarr(I, v, d=None):
    """v as an Arr, shared when it already is one."""
    if isinstance(v, Arr) and (d is None or dtype_of(I, v) == d):
        return Arr(v.buf, v.idx, False, True)
    a, d0 = tonp(I, v)
    d = d or d0
    r = mkarr(I, _conv(I, a, d0, d), d, True)
    return r


def item(I, a):
    return I.heap[a.buf].data[int(a.idx)]


def get1(I, a):
    return I.heap[a.buf].data[int(a.idx.reshape(-1)[0])]


def size_const(a):
    return a.size


def copy(I, a):
    r = I.newarr(elems(I, a), a.shape, dtype_of(I, a), a.zero)
    return r


def map1(I, f, a):
    x, d = tonp(I, a)
    return mkarr(I, _map(x, f), 'f')


def iter_arr(I, a):
    if a.ndim == 0:
        I.throw('TypeError', 'iteration over a 0-d array')
    return [getitem(I, a, i) for i in range(a.shape[0])]


def parse_dtype(I, d):
    if d is None:
        return None
    if isinstance(d, DTypeV):
        return d.name
    if isinstance(d, str):
        s = d.lstrip('<>=|')
        if s.startswith(('float32', 'f4')) or s == 'single':
            return 'g'
        if s.startswith('float16') or s == 'f2':
            raise Unsupported('float16')
        if s.startswith(('float', 'f', 'double', 'd')):
            return 'f'
        if s.startswith(('int', 'uint', 'i', 'u')):
            return 'i'
        if s.startswith(('bool', '?', 'b')):
            return 'b'
        if s.startswith(('U', 'S', 'str')):
            return 'U'
        if s.startswith(('O', 'object')):
            return 'O'
        if s == 'number':
            return 'f'
        raise Unsupported('dtype %r' % d)
    c = I.libs.as_class(I, d)
    n = getattr(c, 'name', '')
    r = {'float': 'f', 'float64': 'f', 'int': 'i', 'int64': 'i', 'bool': 'b', 'bool_': 'b', 'str': 'U', 'str_': 'U',
         'object': 'O', 'object_': 'O', 'float32': 'g', 'number': 'f', 'floating': 'f', 'integer': 'i'}.get(n)
    if r is None:
        raise Unsupported('dtype %r' % (d,))
    return r


def cast_scalar(I, d, args):
    d = d.name
    if not args:
        return scalar(I, {'f': 0.0, 'i': 0, 'b': False, 'U': ''}.get(d, 0.0), d)
    a, d0 = tonp(I, args[0])
    return mkarr(I, _conv(I, a, d0, d), d)


# ------------------------------------------------------------------ element-wise
def bcast(I, *xs):
    try:
        return np.broadcast_arrays(*xs) if len(xs) > 1 else list(xs)
    except ValueError:
        I.throw('ValueError', 'operands could not be broadcast together with shapes ' +
                ' '.join(str(x.shape) for x in xs))


def ew(I, f, xs, d):
    """Element-wise f over object ndarrays."""
    bs = bcast(I, *xs)
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(of.size):
        of[i] = f(*[x[i] for x in fl])
    return mkarr(I, out, d)


def _weak(x):
    return isinstance(x, (bool, int, float, Term))


def _bin_dtype(I, op, a, b, da, db):
    if 'g' in (da, db):
        # python scalars do not promote float32
        if da == 'g' and not isinstance(b, Arr) or db == 'g' and not isinstance(a, Arr):
            return 'g'
    d = promote(da, db)
    if op == 'truediv' and d in 'bi':
        return 'f'
    if d == 'b' and op in ('floordiv', 'mod', 'pow', 'lshift', 'rshift'):
        return 'i'
    return d


def _el(I, op, d):
    if op == 'add':
        return T.or_ if d == 'b' else T.add
    if op == 'sub':
        if d == 'b':
            I.throw('TypeError', 'numpy boolean subtract, the `-` operator, is not supported')
        return T.sub
    if op == 'mul':
        return T.and_ if d == 'b' else T.mul
    if op == 'truediv':
        return T.div
    if op == 'floordiv':
        return T.floordiv
    if op == 'mod':
        return T.mod
    if op == 'pow':
        return T.power
    if op in ('and', 'or', 'xor'):
        if d == 'b':
            return {'and': T.and_, 'or': T.or_,
                    'xor': lambda x, y: T.or_(T.and_(x, T.not_(y)), T.and_(T.not_(x), y))}[op]
        if d == 'f':
            I.throw('TypeError', "ufunc 'bitwise_%s' not supported for the input types" % op)
        return lambda x, y: I.num_binop(op, x, y)
    if op in ('lshift', 'rshift'):
        return lambda x, y: I.num_binop(op, x, y)
    raise Unsupported('array operator ' + op)


def defers(I, v):
    """Does ndarray.__op__(v) return NotImplemented?"""
    if not I.is_obj(v):
        return False
    c = I.cell(v).cls
    if not isinstance(c, ClassV):
        return True
    if c.has('__array_ufunc__'):
        if c.lookup('__array_ufunc__') is None:
            return True
        raise Unsupported('__array_ufunc__')
    p = c.lookup('__array_priority__')
    if p is not None and p > 0:
        return True
    return False


_EVENTDIV = ('truediv', 'floordiv', 'mod')


def binop(I, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Arr) and x.mem and not (isinstance(y, Arr) and not y.mem):
            I.throw('TypeError', "unsupported operand type(s) for %s: 'memoryview'" % op)
    a, b = [Arr(x.buf, x.idx, False, True) if isinstance(x, Arr) and x.mem else x for x in (a, b)]
    if op == 'matmul':
        if defers(I, a) or defers(I, b):
            return NOTIMPL
        return call(I, 'matmul', [a, b], {})
    for x, y, refl in ((a, b, False), (b, a, True)):
        if isinstance(x, Arr) and I.is_obj(y):
            if defers(I, y):
                return NOTIMPL
            if not isinstance(I.cell(y).cls, ClassV):
                return NOTIMPL
            xa, d = tonp(I, x)
            if x.ndim == 0 and not x.zero or x.ndim == 0:
                u = item(I, x)
                return I.obj_binop(op, u, y) if not refl else I.obj_binop(op, y, u)
            if refl:
                # the object's own operator comes first
                m = I.cell(y).cls.lookup('__%s__' % op)
                if m is not None:
                    r = I.call(BoundV(m, y), [x], {})
                    if r is not NOTIMPL:
                        return r
            out = _map(xa, lambda u: I.obj_binop(op, u, y) if not refl else I.obj_binop(op, y, u))
            return mkarr(I, out, 'O')
        if isinstance(x, Arr) and isinstance(y, OpaqueV):
            return NOTIMPL
    for x in (a, b):
        if x is None or isinstance(x, (DictCell,)) or isinstance(x, Ref) and not isinstance(I.cell(x), ListCell) \
                or isinstance(x, (ClassV, NativeClass, FuncV, BoundV)) or I.libs.isstr(x):
            other = b if x is a else a
            if dtype_of(I, other) in 'OU' or dtype_of(I, x) == 'U' and op == 'add':
                break
            I.throw('TypeError', 'unsupported operand type(s) for %s' % op)
    xa, da = tonp(I, a)
    xb, db = tonp(I, b)
    if 'U' in (da, db) and 'O' not in (da, db):
        if op == 'add' and da == db:
            return ew(I, T.cat, [xa, xb], 'U')
        I.throw('TypeError', "ufunc '%s' did not contain a loop with matching signature" % op)
    if 'O' in (da, db):
        return ew(I, lambda x, y: I.binop(op, x, y), [xa, xb], 'O')
    d = _bin_dtype(I, op, a, b, da, db)
    if op == 'pow' and d == 'i':
        for y in xb.reshape(-1):
            if T.isnum(y) and y < 0:
                I.throw('ValueError', 'Integers to negative integer powers are not allowed.')
    f = _el(I, op, d)
    if op in _EVENTDIV:
        for y in xb.reshape(-1):
            if not T.isnum(y) or y == 0:
                I.events.append(('npdiv', y, list(I.guards), I.site))
    return ew(I, lambda x, y: cast(f(x, y), d), [xa, xb], d)


def compare(I, op, a, b):
    for x, y, refl in ((a, b, False), (b, a, True)):
        if isinstance(x, Arr) and I.is_obj(y):
            if not isinstance(I.cell(y).cls, ClassV) or defers(I, y):
                return NOTIMPL
            ro = op if not refl else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
            if refl or x.ndim == 0 and not x.zero:
                m = I.cell(y).cls.lookup('__%s__' % (op if refl else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)))
                if m is not None and refl:
                    r = I.call(BoundV(m, y), [x], {})
                    if r is not NOTIMPL:
                        return r
            xa, d = tonp(I, x)
            out = _map(xa, lambda u: I.compare(ro, u, y))
            return mkarr(I, _map(out, lambda u: cast(u, 'b')), 'b')
    if any(v is None for v in (a, b)):
        if op in ('eq', 'ne'):
            x = a if isinstance(a, Arr) else b
            xa, d = tonp(I, x)
            return ew(I, lambda u: (u is None) == (op == 'eq'), [xa], 'b')
        I.throw('TypeError', "'%s' not supported with NoneType" % op)
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return NOTIMPL
    if any(isinstance(v, Ref) and isinstance(I.cell(v), DictCell) for v in (a, b)):
        return NOTIMPL
    xa, da = tonp(I, a)
    xb, db = tonp(I, b)
    if 'O' in (da, db):
        def f(x, y):
            r = I.compare(op, x, y)
            if isinstance(r, Arr):
                r = item(I, r) if r.ndim == 0 else I.truth(r)
            return r if isinstance(r, (bool, Term)) else I.truth(r)
        return ew(I, f, [xa, xb], 'b')
    if (da == 'U') != (db == 'U'):
        if op in ('eq', 'ne'):
            return ew(I, lambda x, y: op == 'ne', [xa, xb], 'b')
        I.throw('TypeError', "ufunc '%s' did not contain a loop with matching signature" % op)
    if da == 'U':
        return ew(I, lambda x, y: I.compare(op, x, y), [xa, xb], 'b')
    return ew(I, getattr(T, op), [xa, xb], 'b')


def unop(I, op, a):
    x, d = tonp(I, a)
    if d == 'O':
        return mkarr(I, _map(x, lambda u: I.unop(op, u)), 'O')
    if op == 'neg':
        if d == 'b':
            I.throw('TypeError', 'The numpy boolean negative, the `-` operator, is not supported')
        return mkarr(I, _map(x, T.neg), d)
    if op == 'pos':
        return mkarr(I, x.copy(), d)
    if op == 'invert':
        if d == 'b':
            return mkarr(I, _map(x, T.not_), 'b')
        if d == 'i':
            return mkarr(I, _map(x, lambda u: T.sub(-1, u)), 'i')
        I.throw('TypeError', "ufunc 'invert' not supported for the input types")
    raise Unsupported('unary ' + op)


def inplace(I, op, a, b):
    if a.ndim == 0 and not a.zero or I.is_obj(b) and isinstance(I.cell(b).cls, ClassV):
        return I.binop(op, a, b)
    r = binop(I, op, a, b)
    if r is NOTIMPL:
        return r
    da, dr = dtype_of(I, a), dtype_of(I, r)
    if da != dr and not (da == 'f' and dr in 'ibg' or da == 'i' and dr == 'b' or da == 'g' and dr in 'fib' or da == 'O'):
        I.throw('TypeError', "Cannot cast ufunc output from dtype('%s') to dtype('%s')" % (NAMES[dr], NAMES[da]))
    ra = tonp(I, r)[0] if isinstance(r, Arr) else _box(r)
    try:
        ra = np.broadcast_to(ra, a.shape)
    except ValueError:
        I.throw('ValueError', 'non-broadcastable output operand')
    if len(ra.shape) > a.ndim:
        I.throw('ValueError', 'non-broadcastable output operand')
    store(I, a, ra)
    return a


def store(I, a, vals):
    """Write object ndarray vals (already of a's shape) into a."""
    b = I.heap[a.buf]
    d = b.dtype
    old = b
    c = I.wcell(a.buf)
    f = a.idx.reshape(-1)
    v = np.broadcast_to(vals, a.shape).reshape(-1)
    for p, x in zip(f, v):
        c.data[p] = cast(x, d) if d in 'figb' else x


def truth(I, a):
    if a.mem:
        return a.size > 0
    if a.size == 0:
        return False
    if a.size > 1:
        I.throw('ValueError', 'The truth value of an array with more than one element is ambiguous.')
    x = get1(I, a)
    return I.truth(x)


# ------------------------------------------------------------------ indexing
def _key(I, k, a):
    """Index usable by numpy; second value: True for basic indexing."""
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    basic = True
    dim = 0
    nnew = sum(1 for x in ks if x is not None and x is not I.libs.ELLIPSIS)
    for x in ks:
        if x is None:
            out.append(None)
            continue
        if x is I.libs.ELLIPSIS or x is Ellipsis:
            out.append(Ellipsis)
            dim = a.ndim - (len(ks) - len(out) - sum(1 for y in ks[len(out):] if y is None))
            continue
        n = a.shape[dim] if dim < a.ndim else 0
        if isinstance(x, SliceV):
            out.append(I.libs._slice(I, x, n))
            dim += 1
            continue
        if isinstance(x, bool) or isinstance(x, Term) and x.sort == 'b':
            out.append(I.truth(x))
            basic = False
            continue
        if isinstance(x, Arr) and x.ndim == 0 and not x.zero or isinstance(x, Arr) and x.ndim == 0 \
                and dtype_of(I, x) == 'i':
            d = dtype_of(I, x)
            v = item(I, x)
            if d == 'b':
                out.append(np.bool_(I.truth(v)))
                basic = False
                continue
            if d != 'i':
                I.throw('IndexError', 'only integers, slices are valid indices')
            x = v
        if isinstance(x, EnumV):
            x = I.libs.unwrap(I, x)
        if isinstance(x, int) or isinstance(x, Term) and x.sort == 'i':
            if isinstance(x, Term):
                x = I.libs._index(I, x, n)
            out.append(int(x))
            dim += 1
            continue
        if isinstance(x, Arr) or _seq(I, x) is not None:
            v, d = tonp(I, x)
            basic = False
            if v.size == 0 and d == 'f' and not isinstance(x, Arr):
                out.append(np.empty(v.shape, dtype=int))
                dim += 1
                continue
            if d == 'b':
                sh = a.shape[dim:dim + v.ndim]
                if v.shape != sh:
                    I.throw('IndexError', 'boolean index did not match indexed array')
                out.append(_map(v, I.truth).astype(bool))
                dim += v.ndim
                continue
            if d != 'i':
                I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            out.append(_map(v, lambda y: y if isinstance(y, int) else I.libs._index(I, y, n)).astype(int))
            dim += 1
            continue
        if isinstance(x, str):
            I.throw('IndexError', 'only integers, slices are valid indices')
        I.throw('IndexError', 'only integers, slices (`:`), ellipsis, None and integer or boolean arrays are valid indices')
    return (tuple(out) if isinstance(k, tuple) or len(out) != 1 else out[0]), basic


def getitem(I, a, k):
    if a.ndim == 0 and not (isinstance(k, tuple) and k == () or k is I.libs.ELLIPSIS or k is None
                            or isinstance(k, Arr) and dtype_of(I, k) == 'b'):
        if a.zero:
            I.throw('IndexError', 'too many indices for array')
        I.throw('IndexError', 'invalid index to scalar variable.')
    key, basic = _key(I, k, a)
    try:
        ix = a.idx[key]
    except IndexError as e:
        I.throw('IndexError', str(e))
    if not isinstance(ix, np.ndarray):
        v = I.heap[a.buf].data[int(ix)]
        d = I.heap[a.buf].dtype
        if a.mem or d == 'O':
            return v
        if d == 'U':
            return v
        return I.newarr([v], (), d)
    if basic:
        return Arr(a.buf, ix, a.mem, a.zero or ix.ndim == 0)
    b = I.heap[a.buf]
    return I.newarr(b.data[ix.reshape(-1)], ix.shape, b.dtype)


def setitem(I, a, k, v):
    if a.ndim == 0 and not a.zero:
        I.throw('TypeError', "'%s' object does not support item assignment" % NAMES[dtype_of(I, a)])
    key, basic = _key(I, k, a)
    try:
        ix = a.idx[key]
    except IndexError as e:
        I.throw('IndexError', str(e))
    ix = np.asarray(ix)
    d = I.heap[a.buf].dtype
    if d == 'O' and ix.ndim == 0:
        I.wcell(a.buf).data[int(ix)] = v
        return
    va, dv = tonp(I, v)
    va = _conv(I, va, dv, d)
    while va.ndim > ix.ndim and va.shape[0] == 1:
        va = va[0]
    if va.ndim > ix.ndim:
        if ix.ndim == 0:
            I.throw('ValueError', 'setting an array element with a sequence.')
        I.throw('ValueError', 'could not broadcast input array')
    try:
        va = np.broadcast_to(va, ix.shape)
    except ValueError:
        I.throw('ValueError', 'could not broadcast input array from shape %s into shape %s' % (va.shape, ix.shape))
    c = I.wcell(a.buf)
    for p, x in zip(ix.reshape(-1), va.reshape(-1)):
        c.data[p] = x


# ------------------------------------------------------------------ undecided selections
def force(I, s):
    keep = [i for i, g in enumerate(s.guard) if I.decide(g)]
    b = I.heap[s.arr.buf]
    return I.newarr(b.data[s.arr.idx[keep]], (len(keep),), b.dtype)


def _open(I, c):
    """Condition that the facts of this trace do not settle."""
    if not isinstance(c, Term):
        return False
    while c.op == 'not':
        c = c.args[0]
    return I.known(c) is None


def _settle(I, c):
    """Condition with what the trace knows about it put in."""
    if not isinstance(c, Term) or _open(I, c):
        return c
    return I.decide(c)


def sel_count(s):
    n = 0
    for g in s.guard:
        n = T.add(n, T.ite(g, 1, 0))
    return n


def _plain(I, a):
    return isinstance(a, Arr) and not a.mem and dtype_of(I, a) in 'bifg'


def sel_map(I, s, f):
    if not _plain(I, s.arr):
        return f(force(I, s))
    r = f(s.arr)
    if not isinstance(r, Arr) or r.shape != s.arr.shape:
        return f(force(I, s))
    return SelV(r, s.guard)


def sel_map2(I, a, b, f):
    sel = [x for x in (a, b) if type(x) is SelV]
    if len(sel) == 2 and not sel[0].same(sel[1]):
        return None
    for x in (a, b):
        y = x.arr if type(x) is SelV else x
        if isinstance(y, Arr):
            if not _plain(I, y) or x is y and y.ndim:
                return None
        elif not (isinstance(y, (int, float)) or isinstance(y, Term) and y.sort in 'fib'):
            return None
    r = f(*[x.arr if type(x) is SelV else x for x in (a, b)])
    return SelV(r, sel[0].guard) if isinstance(r, Arr) else None


_SEL1 = set('sin cos tan arcsin asin arccos acos arctan atan exp log sqrt radians deg2rad degrees rad2deg floor ceil trunc fix rint abs absolute '
            'square negative positive sign logical_not isnan isfinite fabs invert'.split())
_SEL2 = set('add subtract multiply divide true_divide floor_divide mod remainder fmod power arctan2 less less_equal greater greater_equal equal '
            'not_equal logical_and logical_or bitwise_and bitwise_or minimum maximum'.split())


def sel_call(I, f, args):
    if not f.path.startswith('numpy.'):
        return None
    n = f.path.split('.', 1)[1]
    if len(args) == 1 and type(args[0]) is SelV:
        if n in _SEL1:
            return sel_map(I, args[0], lambda x: call(I, n, [x], {}))
        if n in ('sum', 'any', 'all', 'size', 'count_nonzero'):
            return sel_reduce(I, n, args[0], [], {})
    if len(args) == 2 and n in _SEL2:
        return sel_map2(I, args[0], args[1], lambda x, y: call(I, n, [x, y], {}))
    return None


def sel_reduce(I, n, s, a, k):
    if a or k or not _plain(I, s.arr) or n == 'size':
        return call(I, n, [force(I, s)] + a, k)
    d = dtype_of(I, s.arr)
    xs = elems(I, s.arr)
    if n in ('sum', 'count_nonzero'):
        r = 0 if d in 'bi' or n != 'sum' else 0.0
        for g, x in zip(s.guard, xs):
            if n != 'sum':
                x = T.tobool(T._num(x))
            r = T.add(r, T.ite(g, T.ite(x, 1, 0) if d == 'b' or n != 'sum' else x, 0 if d in 'bi' or n != 'sum' else 0.0))
        return scalar(I, r, d if d != 'b' and n == 'sum' else 'i')
    bs = [x if d == 'b' else T.tobool(T._num(x)) for x in xs]
    if n == 'any':
        return scalar(I, T.or_(*[T.and_(g, x) for g, x in zip(s.guard, bs)]), 'b')
    return scalar(I, T.and_(*[T.or_(T.not_(g), x) for g, x in zip(s.guard, bs)]), 'b')


def _selkey(I, k, n):
    """(positions, guards) of an undecided selection along an axis of n entries."""
    if type(k) is SelV:
        d = dtype_of(I, k.arr)
        if d != 'i':
            return None
        ps = elems(I, k.arr)
        if any(not isinstance(p, (int, np.integer)) or isinstance(p, bool) or not -n <= p < n for p in ps):
            return None
        ps = [int(p) % n for p in ps]
        gs = [_settle(I, g) for g in k.guard]
        return ps, gs
    if isinstance(k, Arr) and k.ndim == 1 and dtype_of(I, k) == 'b' and k.shape == (n,):
        gs = [_settle(I, T.tobool(g) if isinstance(g, Term) else bool(g)) for g in elems(I, k)]
        if all(not isinstance(g, Term) for g in gs):
            return None
        return list(range(n)), gs
    return None


def sel_getitem(I, o, k):
    if type(o) is SelV:
        if type(k) is SelV and o.same(k) and dtype_of(I, k.arr) == 'b' and _plain(I, o.arr):
            return SelV(o.arr, [T.and_(g, T.tobool(x) if isinstance(x, Term) else bool(x)) for g, x in zip(o.guard, elems(I, k.arr))])
        return None
    if not isinstance(o, Arr) or o.ndim != 1 or not _plain(I, o):
        return None
    r = _selkey(I, k, o.shape[0])
    if r is None:
        return None
    b = I.heap[o.buf]
    return SelV(I.newarr(b.data[o.idx[r[0]]], (len(r[0]),), b.dtype), r[1])


def sel_setitem(I, o, k, v):
    if not isinstance(o, Arr) or o.ndim != 1 or not _plain(I, o):
        return False
    r = _selkey(I, k, o.shape[0])
    if r is None:
        return False
    ps, gs = r
    if len(set(ps)) != len(ps):
        return False
    d = dtype_of(I, o)
    if type(v) is SelV:
        if len(v.guard) != len(gs) or not _plain(I, v.arr) or any(_settle(I, x) is not y for x, y in zip(v.guard, gs)):
            return False
        va, dv = tonp(I, v.arr)
    else:
        if isinstance(v, Arr) and (v.ndim and v.shape != (1,) or not _plain(I, v)) or not isinstance(v, Arr) and not (
                isinstance(v, (int, float)) or isinstance(v, Term) and v.sort in 'fib'):
            return False
        va, dv = tonp(I, v)
    va = np.broadcast_to(_conv(I, va, dv, d).reshape(-1), (len(ps),))
    c = I.wcell(o.buf)
    for p, g, x in zip(ps, gs, va):
        q = int(o.idx[p])
        c.data[q] = T.ite(g, x, c.data[q])
    return True


# ------------------------------------------------------------------ attributes
_METHODS = ('sum mean min max argmin argmax all any cumsum cumprod prod std var round clip dot repeat '
            'nonzero take swapaxes squeeze trace diagonal argsort ptp searchsorted compress conj conjugate').split()


_DUNDERS = ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow')


def attr(I, a, name):
    from .interp import _MISSING
    if a.mem:
        if name == 'obj':
            return Arr(a.buf, a.idx, False, True)
        if name == 'tolist':
            return BuiltinV(name, lambda I, x, k: tolist(I, a))
        if name == 'shape':
            return tuple(a.shape)
        if name == 'ndim':
            return a.ndim
        if name == 'nbytes':
            return a.size * 8
        return _MISSING
    d = dtype_of(I, a)
    if name == 'shape':
        return tuple(a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return a.size
    if name == 'T':
        return Arr(a.buf, a.idx.T, False, a.zero)
    if name == 'dtype':
        return DTypeV(d)
    if name == 'data':
        return Arr(a.buf, a.idx, True)
    if name == 'real':
        return a
    if name == 'imag':
        return mkarr(I, _map(a.idx, lambda x: 0.0), 'f')
    if name == 'itemsize':
        return 8
    if name == 'nbytes':
        return 8 * a.size
    if name == 'flat':
        return BuiltinFlat(I, a)
    if name == 'base':
        return None
    if name == 'flags':
        return OpaqueV('flags', {'writeable': True, 'c_contiguous': True})
    if name == '__class__':
        return I.libs.type_(I, a)
    dn = name.strip('_') if name[:2] == '__' == name[-2:] else ''
    if dn in _DUNDERS and a.ndim:
        return BuiltinV(name, lambda I, x, k: I.binop(dn, a, x[0]))
    if dn[:1] == 'r' and dn[1:] in _DUNDERS and a.ndim:
        return BuiltinV(name, lambda I, x, k: I.binop(dn[1:], x[0], a))
    if dn[:1] == 'i' and dn[1:] in _DUNDERS and a.ndim:
        return BuiltinV(name, lambda I, x, k: I.iop(dn[1:], a, x[0]))
    if dn in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return BuiltinV(name, lambda I, x, k: I.compare(dn, a, x[0]))
    if dn == 'neg':
        return BuiltinV(name, lambda I, x, k: I.unop('neg', a))
    if dn == 'getitem':
        return BuiltinV(name, lambda I, x, k: I.getitem(a, x[0]))
    if name == '__array_priority__':
        return 0.0
    m = _ARRM.get(name)
    if m is not None:
        return BuiltinV('ndarray.' + name, lambda I, x, k: m(I, a, x, k))
    if name in _METHODS:
        return BuiltinV('ndarray.' + name, lambda I, x, k: call(I, name, [a] + x, k))
    if name.startswith('__') and name.endswith('__'):
        op = name[2:-2]
        if op in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv', 'and', 'or', 'xor', 'matmul'):
            return BuiltinV(name, lambda I, x, k: I.binop(op, a, x[0]))
        if op[0] == 'r' and op[1:] in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv', 'and', 'or'):
            return BuiltinV(name, lambda I, x, k: I.binop(op[1:], x[0], a))
        if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return BuiltinV(name, lambda I, x, k: I.compare(op, a, x[0]))
        if op == 'len':
            return BuiltinV(name, lambda I, x, k: I.libs.len_(I, a)) if a.ndim else _MISSING
        if op == 'getitem':
            return BuiltinV(name, lambda I, x, k: getitem(I, a, x[0]))
        if op == 'neg':
            return BuiltinV(name, lambda I, x, k: unop(I, 'neg', a))
        if op == 'float':
            return BuiltinV(name, lambda I, x, k: I.libs.to_float(I, a))
        if op == 'iter' and a.ndim:
            return BuiltinV(name, lambda I, x, k: I.libs.mkiter(I, a))
        if op == 'copy' or op == 'deepcopy':
            return BuiltinV(name, lambda I, x, k: copy(I, a))
        return _MISSING
    if a.ndim == 0 and not a.zero:
        if d == 'U':
            h = I.libs.scalar_attr(I, item(I, a), name)
            return h if h is not None else _MISSING
        if name == 'is_integer':
            return BuiltinV(name, lambda I, x, k: T.eq(T.floor(item(I, a)), item(I, a)))
        return _MISSING
    if name in ('view', 'tobytes', 'byteswap', 'partition', 'argpartition', 'dump', 'setfield', 'getfield', 'choose', 'resize'):
        raise Unsupported('ndarray.' + name)
    return _MISSING


def BuiltinFlat(I, a):
    return Arr(a.buf, a.idx.reshape(-1), False)


def tolist(I, a):
    def go(ix):
        if ix.ndim == 0:
            return I.heap[a.buf].data[int(ix)]
        return I.newlist([go(x if isinstance(x, np.ndarray) else np.asarray(x)) for x in ix])
    return go(a.idx)


def _m_item(I, a, x, k):
    if x:
        v = getitem(I, Arr(a.buf, a.idx.reshape(-1)) if len(x) == 1 else a, x[0] if len(x) == 1 else tuple(x))
        return item(I, v) if isinstance(v, Arr) else v
    if a.size != 1:
        I.throw('ValueError', 'can only convert an array of size 1 to a Python scalar')
    return get1(I, a)


def _shape(I, s):
    s = I.libs.unwrap(I, s)
    if isinstance(s, int):
        return (s,)
    if isinstance(s, Term):
        raise Unsupported('symbolic shape')
    out = []
    for x in I.libs.tolist(I, s):
        x = I.libs.intval(I, x)
        if not isinstance(x, int):
            raise Unsupported('symbolic shape')
        out.append(x)
    return tuple(out)


def _view(I, a, ix):
    return Arr(a.buf, ix, False, True)


def _m_reshape(I, a, x, k):
    s = x[0] if len(x) == 1 else tuple(x)
    if 'shape' in k:
        s = k['shape']
    sh = _shape(I, s)
    order = k.get('order', 'C')
    try:
        ix = a.idx.reshape(sh, order=order)
    except ValueError as e:
        I.throw('ValueError', str(e))
    if order == 'F' or not _contig(a):
        v = np.shares_memory(ix, a.idx)
        if not v and ix.size:
            b = I.heap[a.buf]
            return I.newarr(b.data[ix.reshape(-1)], ix.shape, b.dtype)
    return _view(I, a, ix)


def _contig(a):
    return a.idx.flags.c_contiguous


def _m_transpose(I, a, x, k):
    if 'axes' in k:
        x = [k['axes']]
    if not x or x[0] is None:
        return _view(I, a, a.idx.T)
    ax = _shape(I, x[0] if len(x) == 1 else tuple(x))
    try:
        return _view(I, a, a.idx.transpose(ax))
    except ValueError as e:
        I.throw('ValueError', str(e))


def _m_astype(I, a, x, k):
    d = parse_dtype(I, x[0] if x else k['dtype'])
    v, d0 = tonp(I, a)
    if d == d0 and (k.get('copy', True) is False or len(x) > 4 and x[4] is False):
        return a
    return mkarr(I, _conv(I, v.copy(), d0, d), d)


def _m_sort(I, a, x, k):
    ax = x[0] if x else k.get('axis', -1)
    r = call(I, 'sort', [a], {'axis': ax})
    store(I, a, tonp(I, r)[0])
    return None


def _m_fill(I, a, x, k):
    setitem(I, a, I.libs.ELLIPSIS, x[0])


def _m_flatten(I, a, x, k):
    b = I.heap[a.buf]
    ix = a.idx.flatten(x[0] if x else k.get('order', 'C'))
    return I.newarr(b.data[ix], ix.shape, b.dtype)


def _m_ravel(I, a, x, k):
    return _m_reshape(I, a, [-1], k if k else ({'order': x[0]} if x else {}))


def _m_put(I, a, x, k):
    f = Arr(a.buf, a.idx.reshape(-1))
    setitem(I, f, x[0], x[1])


_ARRM = {'item': _m_item, 'tolist': lambda I, a, x, k: tolist(I, a), 'reshape': _m_reshape,
         'transpose': _m_transpose, 'astype': _m_astype, 'copy': lambda I, a, x, k: copy(I, a),
         'flatten': _m_flatten, 'ravel': _m_ravel, 'sort': _m_sort, 'fill': _m_fill, 'put': _m_put,
         'setflags': lambda I, a, x, k: None}


# ------------------------------------------------------------------ function table
FN = {}


class Args:
    def __init__(self, I, spec, a, k, name):
        names = []
        self._d = {}
        for s in spec.split():
            if '=' in s:
                n, d = s.split('=', 1)
                self._d[n] = {'None': None, 'True': True, 'False': False}.get(d, d)
                try:
                    self._d[n] = int(d)
                except ValueError:
                    try:
                        self._d[n] = float(d)
                    except ValueError:
                        pass
            else:
                n = s
            names.append(n)
        if len(a) > len(names):
            I.throw('TypeError', '%s() takes at most %d positional arguments' % (name, len(names)))
        given = set()
        for n, v in zip(names, a):
            self._d[n] = v
            given.add(n)
        for n, v in k.items():
            if n not in names:
                if n in ('dtype', 'casting', 'order', 'subok', 'kind', 'optimize', 'like', 'stable', 'copy'):
                    if n == 'dtype':
                        raise Unsupported('dtype= of numpy.%s' % name)
                    continue
                if n in ('out', 'where', 'initial', 'keepdims'):
                    raise Unsupported('%s= of numpy.%s' % (n, name))
                raise Unsupported('keyword %s of numpy.%s' % (n, name))
            if n in given:
                I.throw('TypeError', '%s() got multiple values for argument %s' % (name, n))
            self._d[n] = v
        for n in names:
            if n not in self._d:
                I.throw('TypeError', "%s() missing required argument '%s'" % (name, n))

    def __getattr__(self, n):
        return self._d[n]


def fn(names, spec):
    def deco(f):
        for n in names.split():
            FN[n] = (f, spec)
        return f
    return deco


def call(I, name, a, k):
    e = FN.get(name)
    if e is None:
        raise Unsupported('numpy.%s at %s' % (name, I.site))
    f, spec = e
    if spec is None:
        return f(I, list(a), dict(k), name)
    return f(I, Args(I, spec, list(a), dict(k), name))


def call_path(I, path, a, k):
    n = path.split('.', 1)[1]
    if '.' in n and n.split('.')[-1] in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
        return _ufmethod(I, n.split('.')[-2], n.split('.')[-1], a, k)
    if n.startswith('char.') or n.startswith('testing.') or n.startswith('polynomial.') or n.startswith('fft.'):
        raise Unsupported('numpy.' + n)
    return call(I, n, a, k)


def resolve(I, path):
    n = path.split('.', 1)[1] if '.' in path else ''
    c = {'pi': math.pi, 'e': math.e, 'inf': math.inf, 'nan': math.nan, 'Inf': math.inf, 'NaN': math.nan, 'NAN': math.nan,
         'PINF': math.inf, 'NINF': -math.inf, 'infty': math.inf, 'euler_gamma': np.euler_gamma}
    if n in c:
        return c[n]
    al = {'float_': 'float64', 'double': 'float64', 'int_': 'int64', 'intp': 'int64', 'int32': 'int64', 'bool8': 'bool_',
          'bool': 'bool_', 'float64': 'float64', 'int64': 'int64', 'bool_': 'bool_', 'float32': 'float32', 'single': 'float32',
          'number': 'number', 'integer': 'integer', 'floating': 'floating', 'ndarray': 'ndarray', 'generic': 'generic',
          'str_': 'str_', 'object_': 'object_', 'signedinteger': 'signedinteger', 'inexact': 'inexact', 'longdouble': 'float64',
          'uint8': 'int64', 'int8': 'int64', 'int16': 'int64', 'uint32': 'int64', 'uint64': 'int64', 'longlong': 'int64'}
    if n in al:
        return I.libs.NATIVE[al[n]]
    if n in ('linalg.LinAlgError', 'exceptions.LinAlgError'):
        return I.libs.NATIVE['LinAlgError']
    if n in ('mgrid', 'ogrid', 'r_', 'c_', 's_', 'index_exp'):
        return _grid(n)
    if n in ('typing.NDArray', 'typing.ArrayLike', 'typing.DTypeLike', 'typing'):
        return OpaqueV('typing.' + n)
    return None


def _grid(n):
    def g(I, k):
        if n in ('s_', 'index_exp'):
            return k
        if n in ('r_', 'c_'):
            ks = list(k) if isinstance(k, tuple) else [k]
            parts = []
            for x in ks:
                if isinstance(x, SliceV):
                    raise Unsupported('np.' + n + ' with a slice')
                a, d = tonp(I, x)
                parts.append((np.atleast_1d(a), d))
            d = promote(*[p[1] for p in parts])
            xs = [_conv(I, p[0], p[1], d) for p in parts]
            if n == 'c_':
                xs = [x[:, None] if x.ndim == 1 else x for x in xs]
                return mkarr(I, _np(I, np.concatenate, xs, axis=-1), d)
            return mkarr(I, _np(I, np.concatenate, xs), d)
        ks = list(k) if isinstance(k, tuple) else [k]
        sl = []
        for x in ks:
            if not all(y is None or isinstance(y, (int, float)) for y in (x.lo, x.hi, x.step)):
                raise Unsupported('symbolic mgrid')
            sl.append(slice(x.lo, x.hi, x.step))
        r = (np.mgrid if n == 'mgrid' else np.ogrid)[tuple(sl) if isinstance(k, tuple) else sl[0]]
        if isinstance(r, (tuple, list)):
            return tuple(_frompy(I, x) for x in r)
        return _frompy(I, r)
    return OpaqueV('numpy.' + n, methods={'getitem': g})


def _frompy(I, a):
    """A concrete numpy array as an Arr."""
    a = np.asarray(a)
    d = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'U': 'U'}.get(a.dtype.kind)
    if d is None:
        raise Unsupported('numpy dtype %s' % a.dtype)
    o = np.empty(a.shape, dtype=object)
    of = o.reshape(-1)
    for i, x in enumerate(a.reshape(-1).tolist()):
        of[i] = x
    return mkarr(I, o, d, True)


def _np(I, f, *a, **k):
    """Apply a numpy function to object arrays; its complaints become exceptions of the program."""
    try:
        return f(*a, **k)
    except ValueError as e:
        I.throw('ValueError', str(e))
    except IndexError as e:
        I.throw('IndexError', str(e))
    except TypeError as e:
        raise Unsupported('numpy: %s' % e)


def _int(I, v):
    if v is None:
        return None
    if isinstance(v, tuple):
        return tuple(_int(I, x) for x in v)
    v = I.libs.intval(I, v)
    if not isinstance(v, int):
        raise Unsupported('symbolic integer argument')
    return v


# ------------------------------------------------------------------ creation
@fn('array asarray asanyarray ascontiguousarray asfortranarray', None)
def _array(I, a, k, name):
    v = a[0] if a else k.pop('object', None) if 'object' in k else k.pop('a')
    d = parse_dtype(I, a[1] if len(a) > 1 else k.get('dtype'))
    cp = k.get('copy', name == 'array')
    if isinstance(v, Arr) and not v.mem:
        if cp is False or cp is None or name != 'array':
            if d is None or dtype_of(I, v) == d:
                return v if v.ndim or v.zero else Arr(copy(I, v).buf, np.array(0).reshape(()), False, True)
    if isinstance(v, Ref) and isinstance(I.cell(v), ListCell) and I.cell(v).kind == 'set' or \
            I.is_obj(v) and isinstance(I.cell(v).cls, NativeClass):
        return mkarr(I, _box(v), 'O', True)
    if isinstance(v, I.libs.DictView):
        return mkarr(I, _box(v), 'O', True)
    if I.is_obj(v) and I.cell(v).cls.lookup('__array__') is not None:
        v = I.call(BoundV(I.cell(v).cls.lookup('__array__'), v), [], {})
    if d == 'O':
        seq = _seq(I, v)
        if seq is not None and not isinstance(v, Arr):
            seq = list(seq)
            ps = [tonp(I, x)[0].shape for x in seq]
            if any(x[:1] != ps[0][:1] for x in ps):
                b = np.empty(len(seq), dtype=object)
                for i, x in enumerate(seq):
                    b[i] = x
                return mkarr(I, b, 'O', True)
            if any(x != ps[0] for x in ps):
                raise Unsupported('ragged object array')
    x, d0 = tonp(I, v)
    if isinstance(v, Arr):
        x = x.copy()
    d = d or d0
    r = _conv(I, x, d0, d)
    if k.get('ndmin'):
        while r.ndim < k['ndmin']:
            r = r[None]
    return mkarr(I, r, d, True)


@fn('copy', 'a order=K subok=False')
def _copy(I, p):
    x, d = tonp(I, p.a)
    return mkarr(I, x.copy(), d, True)


def _filled(I, sh, v, d):
    o = np.empty(_shape(I, sh), dtype=object)
    f = o.reshape(-1)
    for i in range(f.size):
        f[i] = v
    return mkarr(I, o, d, True)


_ZERO = {'f': 0.0, 'i': 0, 'b': False, 'U': '', 'O': 0, 'g': 0.0}
_ONE = {'f': 1.0, 'i': 1, 'b': True, 'U': '1', 'O': 1, 'g': 1.0}


@fn('zeros', 'shape dtype=None order=C')
def _zeros(I, p):
    d = parse_dtype(I, p.dtype) or 'f'
    return _filled(I, p.shape, _ZERO[d], d)


@fn('ones', 'shape dtype=None order=C')
def _ones(I, p):
    d = parse_dtype(I, p.dtype) or 'f'
    return _filled(I, p.shape, _ONE[d], d)


@fn('empty', 'shape dtype=None order=C')
def _empty(I, p):
    d = parse_dtype(I, p.dtype) or 'f'
    if d in 'fig':
        sh = _shape(I, p.shape)
        n = int(np.prod(sh)) if sh else 1
        data = [I.fresh('uninitialised', 'i' if d == 'i' else 'f') for _ in range(n)]
        return I.newarr(data, sh, d, True)
    return _filled(I, p.shape, None if d == 'O' else _ZERO[d], d)


@fn('full', 'shape fill_value dtype=None order=C')
def _full(I, p):
    v, d0 = tonp(I, p.fill_value)
    d = parse_dtype(I, p.dtype) or d0
    sh = _shape(I, p.shape)
    v = _conv(I, v, d0, d)
    try:
        v = np.broadcast_to(v, sh).copy()
    except ValueError as e:
        I.throw('ValueError', str(e))
    return mkarr(I, v, d, True)


def _like(kind):
    def f(I, p):
        x, d0 = tonp(I, p.a)
        d = parse_dtype(I, p.dtype) or d0
        sh = x.shape if p.shape is None else _shape(I, p.shape)
        if kind == 'full':
            v, dv = tonp(I, p.fill_value)
            return mkarr(I, np.broadcast_to(_conv(I, v, dv, d), sh).copy(), d, True)
        if kind == 'empty':
            return call(I, 'empty', [sh, DTypeV(d)], {})
        return _filled(I, sh, (_ZERO if kind == 'zeros' else _ONE)[d], d)
    return f


for _k in ('zeros', 'ones', 'empty'):
    FN[_k + '_like'] = (_like(_k), 'a dtype=None order=K subok=True shape=None')
FN['full_like'] = (_like('full'), 'a fill_value dtype=None order=K subok=True shape=None')


@fn('arange', None)
def _arange(I, a, k, name):
    d = parse_dtype(I, k.get('dtype'))
    a = [I.libs.unwrap(I, x) for x in a]
    if 'start' in k or 'stop' in k or 'step' in k:
        a = [k.get('start', a[0] if a else 0), k.get('stop', a[1] if len(a) > 1 else None), k.get('step', 1)]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if any(x is None for x in (start, stop)):
        I.throw('TypeError', 'arange() requires stop to be specified.')
    n = T.div(T.sub(stop, start), step)
    if not T.isnum(n):
        raise Unsupported('arange of symbolic length')
    n = max(0, math.ceil(n))
    d = d or promote(*[dtype_of(I, x) for x in (start, stop, step)])
    return I.newarr([cast(T.add(start, T.mul(i, step)), d) for i in range(n)], (n,), d)


@fn('linspace', 'start stop num=50 endpoint=True retstep=False dtype=None axis=0')
def _linspace(I, p):
    n = _int(I, p.num)
    s, _ = tonp(I, p.start)
    e, _ = tonp(I, p.stop)
    m = n - 1 if p.endpoint else n
    out = []
    for i in range(n):
        if p.endpoint and i == n - 1 and n > 1:
            out.append(ew(I, lambda x, y: T.cast_f(T._num(y)), [s, e], 'f'))
        else:
            w = i / m if m else 0.0
            out.append(ew(I, lambda x, y: T.cast_f(T.add(x, T.mul(T.sub(y, x), w))), [s, e], 'f'))
    r = call(I, 'array', [tuple(out)], {}) if out else I.newarr([], (0,), 'f')
    d = parse_dtype(I, p.dtype)
    if d and d != 'f':
        r = _m_astype(I, r, [DTypeV(d)], {})
    if p.retstep:
        return (r, T.div(T.sub(p.stop, p.start), m))
    return r


@fn('eye identity', 'N M=None k=0 dtype=None order=C')
def _eye(I, p):
    d = parse_dtype(I, p.dtype) or 'f'
    n = _int(I, p.N)
    return _m_astype(I, _frompy(I, np.eye(n, _int(I, p.M), _int(I, p.k))), [DTypeV(d)], {})


@fn('indices', 'dimensions dtype=None sparse=False')
def _indices(I, p):
    return _frompy(I, np.indices(_shape(I, p.dimensions)))


@fn('fromiter', 'iter dtype count=-1')
def _fromiter(I, p):
    d = parse_dtype(I, p.dtype)
    xs = [I.libs.unwrap(I, x) for x in I.libs.iterate(I, p.iter)]
    return I.newarr([cast(x, d) for x in xs], (len(xs),), d)


@fn('dtype', 'd')
def _dtype(I, p):
    return DTypeV(parse_dtype(I, p.d))


@fn('tri', 'N M=None k=0 dtype=None')
def _tri(I, p):
    return _frompy(I, np.tri(_int(I, p.N), _int(I, p.M), _int(I, p.k)))


# ------------------------------------------------------------------ moving elements
def _many(I, seq):
    parts = [tonp(I, x) for x in (I.libs.tolist(I, seq) if not isinstance(seq, tuple) else list(seq))]
    if not parts:
        I.throw('ValueError', 'need at least one array to concatenate')
    d = promote(*[p[1] for p in parts])
    return [_conv(I, p[0], p[1], d) for p in parts], d


def _cat(f, spec):
    def g(I, p):
        xs, d = _many(I, p.arrays)
        kw = {}
        if 'axis' in spec:
            kw['axis'] = _int(I, p.axis) if p.axis is not None else None
        return mkarr(I, _np(I, f, xs, **kw), d)
    return g


FN['concatenate'] = FN['concat'] = (_cat(np.concatenate, 'axis'), 'arrays axis=0 out=None dtype=None')
FN['stack'] = (_cat(np.stack, 'axis'), 'arrays axis=0')
FN['vstack'] = FN['row_stack'] = (_cat(np.vstack, ''), 'arrays')
FN['hstack'] = (_cat(np.hstack, ''), 'arrays')
FN['dstack'] = (_cat(np.dstack, ''), 'arrays')
FN['column_stack'] = (_cat(np.column_stack, ''), 'arrays')


@fn('append', 'arr values axis=None')
def _append(I, p):
    xs, d = _many(I, (p.arr, p.values))
    return mkarr(I, _np(I, np.append, xs[0], xs[1], axis=_int(I, p.axis)), d)


@fn('insert', 'arr obj values axis=None')
def _insert(I, p):
    x, d = tonp(I, p.arr)
    v, dv = tonp(I, p.values)
    v = _conv(I, v, dv, d)
    return mkarr(I, _np(I, np.insert, x, _ints(I, p.obj), v, axis=_int(I, p.axis)), d)


def _ints(I, v):
    if isinstance(v, SliceV):
        return slice(_int(I, v.lo), _int(I, v.hi), _int(I, v.step))
    a, d = tonp(I, v)
    if d == 'b':
        return _map(a, I.truth).astype(bool)
    for x in a.reshape(-1):
        if not isinstance(x, int):
            raise Unsupported('symbolic index array')
    return a.astype(int) if a.ndim else int(a[()])


@fn('delete', 'arr obj axis=None')
def _delete(I, p):
    x, d = tonp(I, p.arr)
    return mkarr(I, _np(I, np.delete, x, _ints(I, p.obj), axis=_int(I, p.axis)), d)


def _struct1(f, spec, intargs):
    def g(I, p):
        x, d = tonp(I, p.a)
        kw = {n: _int(I, getattr(p, n)) for n in intargs}
        return mkarr(I, _np(I, f, x, **kw), d)
    return g


FN['roll'] = (lambda I, p: mkarr(I, _np(I, np.roll, tonp(I, p.a)[0], _int(I, p.shift), axis=_int(I, p.axis)), tonp(I, p.a)[1]), 'a shift axis=None')
FN['flip'] = (lambda I, p: _vw(I, p.m, lambda x: np.flip(x, _int(I, p.axis))), 'm axis=None')
FN['fliplr'] = (lambda I, p: _vw(I, p.m, np.fliplr), 'm')
FN['flipud'] = (lambda I, p: _vw(I, p.m, np.flipud), 'm')
FN['rot90'] = (lambda I, p: _vw(I, p.m, lambda x: np.rot90(x, _int(I, p.k))), 'm k=1')
FN['tril'] = (lambda I, p: mkarr(I, *_tri2(I, p, np.tril)), 'm k=0')
FN['triu'] = (lambda I, p: mkarr(I, *_tri2(I, p, np.triu)), 'm k=0')


def _tri2(I, p, f):
    x, d = tonp(I, p.m)
    m = f(np.ones(x.shape[-2:], dtype=bool), _int(I, p.k))
    o = x.copy()
    o[..., ~m] = _ZERO[d]
    return o, d


def _vw(I, a, f):
    """A view made by applying f to the positions."""
    a = asarr(I, a)
    try:
        ix = f(a.idx)
    except (ValueError, IndexError) as e:
        I.throw('AxisError' if 'AxisError' in I.libs.NATIVE else 'ValueError', str(e))
    return _view(I, a, ix)


FN['transpose'] = FN['permute_dims'] = (lambda I, p: _m_transpose(I, asarr(I, p.a), [p.axes], {}), 'a axes=None')
FN['matrix_transpose'] = (lambda I, p: _vw(I, p.a, lambda x: np.swapaxes(x, -1, -2)), 'a')
FN['swapaxes'] = (lambda I, p: _vw(I, p.a, lambda x: np.swapaxes(x, _int(I, p.axis1), _int(I, p.axis2))), 'a axis1 axis2')
FN['moveaxis'] = (lambda I, p: _vw(I, p.a, lambda x: np.moveaxis(x, _ax(I, p.source), _ax(I, p.destination))), 'a source destination')
FN['rollaxis'] = (lambda I, p: _vw(I, p.a, lambda x: np.rollaxis(x, _int(I, p.axis), _int(I, p.start))), 'a axis start=0')
FN['expand_dims'] = (lambda I, p: _vw(I, p.a, lambda x: np.expand_dims(x, _ax(I, p.axis))), 'a axis')
FN['squeeze'] = (lambda I, p: _vw(I, p.a, lambda x: np.squeeze(x, _ax(I, p.axis))), 'a axis=None')
FN['broadcast_to'] = (lambda I, p: _vw(I, p.a, lambda x: np.broadcast_to(x, _shape(I, p.shape))), 'a shape subok=False')
FN['ravel'] = (lambda I, p: _m_ravel(I, asarr(I, p.a), [], {'order': p.order} if p.order != 'C' else {}), 'a order=C')
FN['reshape'] = (lambda I, p: _m_reshape(I, asarr(I, p.a), [p.newshape if p.shape is None else p.shape], {'order': p.order}), 'a newshape=None order=C shape=None')
FN['diagonal'] = (lambda I, p: _vw(I, p.a, lambda x: np.diagonal(x, _int(I, p.offset), _int(I, p.axis1), _int(I, p.axis2))), 'a offset=0 axis1=0 axis2=1')
FN['shape'] = (lambda I, p: tuple(tonp(I, p.a)[0].shape), 'a')
FN['ndim'] = (lambda I, p: tonp(I, p.a)[0].ndim, 'a')
FN['size'] = (lambda I, p: tonp(I, p.a)[0].size if p.axis is None else tonp(I, p.a)[0].shape[p.axis], 'a axis=None')


def _ax(I, v):
    if v is None:
        return None
    if isinstance(v, Ref):
        v = tuple(I.libs.tolist(I, v))
    return _int(I, v)


def _atleast(n):
    f = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n]

    def g(I, a, k, name):
        out = tuple(_vw(I, x, f) for x in a)
        return out[0] if len(out) == 1 else out
    return g


for _n in (1, 2, 3):
    FN['atleast_%dd' % _n] = (_atleast(_n), None)


@fn('broadcast_arrays', None)
def _barrays(I, a, k, name):
    xs = [asarr(I, x) for x in a]
    try:
        sh = np.broadcast_shapes(*[x.shape for x in xs])
    except ValueError as e:
        I.throw('ValueError', str(e))
    return I.newlist([_view(I, x, np.broadcast_to(x.idx, sh)) for x in xs])


@fn('tile', 'A reps')
def _tile(I, p):
    x, d = tonp(I, p.A)
    return mkarr(I, _np(I, np.tile, x, _shape(I, p.reps)), d)


@fn('repeat', 'a repeats axis=None')
def _repeat(I, p):
    x, d = tonp(I, p.a)
    return mkarr(I, _np(I, np.repeat, x, _ints(I, p.repeats), axis=_int(I, p.axis)), d)


@fn('take', 'a indices axis=None out=None mode=raise')
def _take(I, p):
    a = asarr(I, p.a)
    ax = _int(I, p.axis)
    if ax is None:
        return getitem(I, Arr(a.buf, a.idx.reshape(-1)), p.indices)
    return getitem(I, a, tuple([SliceV(None, None, None)] * (ax % a.ndim) + [p.indices]))


@fn('take_along_axis', 'arr indices axis')
def _taa(I, p):
    x, d = tonp(I, p.arr)
    return mkarr(I, _np(I, np.take_along_axis, x, _ints(I, p.indices), _int(I, p.axis)), d)


@fn('compress', 'condition a axis=None')
def _compress(I, p):
    a = asarr(I, p.a)
    c = _map(tonp(I, p.condition)[0], I.truth).astype(bool)
    ax = _int(I, p.axis)
    ix = a.idx.reshape(-1)[np.flatnonzero(c)] if ax is None else np.take(a.idx, np.flatnonzero(c), axis=ax)
    b = I.heap[a.buf]
    return I.newarr(b.data[ix.reshape(-1)], ix.shape, b.dtype)


FN['extract'] = (lambda I, p: _compress(I, Args(I, 'condition a axis=None', [call(I, 'ravel', [p.condition], {}), p.arr], {}, 'extract')), 'condition arr')


@fn('diag', 'v k=0')
def _diag(I, p):
    x, d = tonp(I, p.v)
    k = _int(I, p.k)
    if x.ndim == 1:
        n = x.size + abs(k)
        o = np.empty((n, n), dtype=object)
        o[...] = _ZERO[d]
        for i in range(x.size):
            o[i + max(0, -k), i + max(0, k)] = x[i]
        return mkarr(I, o, d)
    return mkarr(I, np.diagonal(x, k).copy(), d)


@fn('meshgrid', None)
def _meshgrid(I, a, k, name):
    xs = [tonp(I, x) for x in a]
    r = _np(I, np.meshgrid, *[x[0] for x in xs], **{n: v for n, v in k.items()})
    return I.newlist([mkarr(I, np.array(x, dtype=object, copy=True), d) for x, (_, d) in zip(r, xs)])


def _splitter(f):
    def g(I, p):
        a = asarr(I, p.ary)
        s = I.libs.unwrap(I, p.indices_or_sections)
        s = s if isinstance(s, int) else [int(x) for x in np.atleast_1d(_ints(I, s))]
        kw = {'axis': _int(I, p.axis)} if f in (np.split, np.array_split) else {}
        r = _np(I, f, a.idx, s, **kw)
        return I.newlist([_view(I, a, x) for x in r])
    return g


FN['split'] = (_splitter(np.split), 'ary indices_or_sections axis=0')
FN['array_split'] = (_splitter(np.array_split), 'ary indices_or_sections axis=0')
for _n in ('hsplit', 'vsplit', 'dsplit'):
    FN[_n] = (_splitter(getattr(np, _n)), 'ary indices_or_sections')


@fn('unstack', 'x axis=0')
def _unstack(I, p):
    a = asarr(I, p.x)
    return tuple(iter_arr(I, _vw(I, a, lambda z: np.moveaxis(z, p.axis, 0))))


@fn('block', 'arrays')
def _block(I, p):
    def go(v):
        if isinstance(v, Ref) and isinstance(I.cell(v), ListCell):
            return [go(x) for x in I.cell(v).items]
        return tonp(I, v)[0]
    return auto(I, _np(I, np.block, go(p.arrays)))


# ------------------------------------------------------------------ element-wise functions
def _u1(f, d='f'):
    """d: result dtype; 'same' keeps int/float; 'b' booleans"""
    def g(I, a, k, name):
        out = k.pop('out', None)
        wh = k.pop('where', True)
        k.pop('dtype', None)
        if len(a) == 2:
            out = a[1]
        x, d0 = tonp(I, a[0])
        if d0 == 'O':
            # numpy calls the method of the elements
            def el(v):
                if isinstance(v, Arr):
                    return call(I, name, [v], {})
                if isinstance(v, Term) or isinstance(v, (int, float)):
                    return f(v)
                if I.is_obj(v):
                    dun = {'absolute': '__abs__', 'abs': '__abs__', 'negative': '__neg__'}.get(name)
                    m = I.cell(v).cls.lookup(dun or name)
                    if m is not None:
                        return I.call(BoundV(m, v), [], {})
                I.throw('TypeError', "loop of ufunc does not support argument 0 of type %s" % I.libs.tname(I, v))
            if a and I.is_obj(a[0]):
                c = I.cell(a[0]).cls
                if isinstance(c, ClassV) and c.has('__array_ufunc__'):
                    raise Unsupported('__array_ufunc__')
            r = mkarr(I, _map(x, el), 'O')
            if isinstance(r, Arr) and r.ndim and all(isinstance(v, bool) or isinstance(v, Term) and v.sort == 'b' for v in elems(I, r)):
                return r
            return r
        if d0 == 'U':
            I.throw('TypeError', "ufunc '%s' not supported for the input types" % name)
        dd = d if d != 'same' else (d0 if d0 != 'b' or name in ('positive', 'absolute', 'abs') else 'i')
        if dd == 'f' and d0 == 'g':
            dd = 'g'
        r = mkarr(I, _map(x, lambda v: cast(f(v), dd)), dd)
        return _out(I, r, out, wh)
    return g


def _out(I, r, out, wh):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        if wh is not True:
            raise Unsupported('where= without out=')
        return r
    ra = tonp(I, r)[0]
    if wh is not True:
        w = tonp(I, wh)[0]
        oa = tonp(I, out)[0]
        w, ra, oa = np.broadcast_arrays(w, ra, oa)
        ra = np.array([T.ite(c, x, y) for c, x, y in zip(w.reshape(-1), ra.reshape(-1), oa.reshape(-1))] + [None], dtype=object)[:-1].reshape(oa.shape)
    store(I, out, ra)
    return out


_deg = 180.0 / math.pi
_rad = math.pi / 180.0
_F1 = {'sin': T.sin, 'cos': T.cos, 'tan': T.tan, 'arcsin asin': T.asin, 'arccos acos': T.acos, 'arctan atan': T.atan,
       'exp': T.exp, 'log': T.log, 'sqrt': T.sqrt, 'sinh': T.sinh, 'cosh': T.cosh, 'tanh': T.tanh,
       'log10': lambda x: T.div(T.log(x), math.log(10)), 'log2': lambda x: T.div(T.log(x), math.log(2)),
       'log1p': lambda x: T.log(T.add(1.0, x)), 'expm1': lambda x: T.sub(T.exp(x), 1.0), 'exp2': lambda x: T.power(2.0, x),
       'radians deg2rad': lambda x: T.mul(x, _rad), 'degrees rad2deg': lambda x: T.mul(x, _deg),
       'cbrt': lambda x: T.mul(T.sign(x), T.power(T.absv(x), 1 / 3)),
       'arcsinh asinh': lambda x: T.log(T.add(x, T.sqrt(T.add(T.mul(x, x), 1.0)))),
       'floor': lambda x: T.cast_f(T.floor(x)), 'ceil': lambda x: T.cast_f(T.ceil(x)),
       'trunc fix': lambda x: T.cast_f(T.trunc(x)), 'rint': lambda x: T.cast_f(T.rnd(x, 0)),
       'fabs': T.absv,
       'reciprocal': lambda x: T.div(1.0, x),
       'sinc': lambda x: T.ite(T.eq(x, 0), 1.0, T.div(T.sin(T.mul(math.pi, x)), T.mul(math.pi, x)))}
for _n, _f in _F1.items():
    for _m in _n.split():
        FN[_m] = (_u1(_f), None)
for _n, _f in {'abs absolute': T.absv, 'square': lambda x: T.mul(x, x), 'negative': T.neg, 'positive': lambda x: x,
               'sign': T.sign, 'conj conjugate real real_if_close': lambda x: x}.items():
    for _m in _n.split():
        FN[_m] = (_u1(_f, 'same'), None)
for _n, _f in {'isnan': T.isnan, 'isfinite': T.isfinite,
               'isinf': lambda x: T.and_(T.not_(T.isfinite(x)), T.not_(T.isnan(x))),
               'logical_not': lambda x: T.not_(T.tobool(x)), 'signbit': lambda x: T.lt(x, 0),
               'isneginf': lambda x: T.and_(T.not_(T.isfinite(x)), T.lt(x, 0)),
               'isposinf': lambda x: T.and_(T.not_(T.isfinite(x)), T.gt(x, 0))}.items():
    for _m in _n.split():
        FN[_m] = (_u1(_f, 'b'), None)
FN['invert'] = FN['bitwise_not'] = (lambda I, p: unop(I, 'invert', asarr(I, p.x)), 'x')
FN['isscalar'] = (lambda I, p: I.libs.isscalar(p.x) or isinstance(p.x, Arr) and p.x.ndim == 0 and not p.x.zero or I.libs.isstr(p.x), 'x')
FN['iscomplexobj'] = (lambda I, p: False, 'x')
FN['isrealobj'] = (lambda I, p: True, 'x')
FN['iterable'] = (lambda I, p: p.x.ndim > 0 if isinstance(p.x, Arr) else not I.libs.isscalar(p.x) and I.libs.isinstance_(I, p.x, I.libs.NATIVE['Iterable']), 'x')


@fn('around round round_', 'a decimals=0 out=None')
def _round(I, p):
    x, d = tonp(I, p.a)
    n = _int(I, p.decimals)
    if d == 'i':
        return mkarr(I, x.copy(), 'i')
    return mkarr(I, _map(x, lambda v: cast(T.rnd(v, n), 'f')), 'f')


@fn('nan_to_num', 'x copy=True nan=0.0 posinf=None neginf=None')
def _ntn(I, p):
    x, d = tonp(I, p.x)
    return mkarr(I, _map(x, lambda v: T.ite(T.isnan(v), p.nan, v)), d)


def _u2(f, kind):
    """kind: arith -> I.binop dispatch name; f -> float; b -> bool; same -> promoted"""
    def g(I, a, k, name):
        out = k.pop('out', None)
        wh = k.pop('where', True)
        k.pop('dtype', None)
        k.pop('casting', None)
        if len(a) == 3:
            out = a[2]
        if len(a) < 2:
            a = [a[0] if a else k['x1'], k['x2']]
        x1, x2 = a[0], a[1]
        if kind == 'arith' or kind == 'cmp':
            x, y = x1, x2
            if not isinstance(x, Arr) and not isinstance(y, Arr):
                if I.is_obj(x) or I.is_obj(y):
                    r = I.binop(f, x, y) if kind == 'arith' else I.compare(f, x, y)
                    return r
                x = asarr(I, x)
                if x.ndim == 0:
                    x = Arr(x.buf, x.idx)
            r = I.binop(f, x, y) if kind == 'arith' else I.compare(f, x, y)
            return _out(I, r, out, wh)
        xa, da = tonp(I, x1)
        xb, db = tonp(I, x2)
        if 'O' in (da, db) and kind != 'b':
            raise Unsupported('numpy.%s on objects' % name)
        if 'O' in (da, db):
            xa = _map(xa, I.truth) if da == 'O' else xa
            xb = _map(xb, I.truth) if db == 'O' else xb
        d = {'f': 'f', 'b': 'b', 'same': promote(da, db)}[kind]
        return _out(I, ew(I, lambda x, y: cast(f(x, y), d), [xa, xb], d), out, wh)
    return g


for _n, _o in {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide true_divide': 'truediv', 'floor_divide': 'floordiv',
               'mod remainder': 'mod', 'power': 'pow', 'pow': 'pow', 'bitwise_and': 'and', 'bitwise_or': 'or', 'bitwise_xor': 'xor',
               'left_shift': 'lshift', 'right_shift': 'rshift'}.items():
    for _m in _n.split():
        FN[_m] = (_u2(_o, 'arith'), None)
for _n, _o in {'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne'}.items():
    FN[_n] = (_u2(_o, 'cmp'), None)
for _n, _f in {'arctan2 atan2': T.atan2, 'hypot': lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))), 'fmod': T.fmod,
               'float_power': T.power, 'copysign': lambda x, y: T.ite(T.lt(y, 0), T.neg(T.absv(x)), T.absv(x)),
               'heaviside': lambda x, y: T.ite(T.eq(x, 0), y, T.ite(T.lt(x, 0), 0.0, 1.0)),
               'logaddexp': lambda x, y: T.log(T.add(T.exp(x), T.exp(y)))}.items():
    for _m in _n.split():
        FN[_m] = (_u2(_f, 'f'), None)
for _n, _f in {'maximum fmax': T.maximum, 'minimum fmin': T.minimum}.items():
    for _m in _n.split():
        FN[_m] = (_u2(_f, 'same'), None)
for _n, _f in {'logical_and': lambda x, y: T.and_(T.tobool(x), T.tobool(y)), 'logical_or': lambda x, y: T.or_(T.tobool(x), T.tobool(y)),
               'logical_xor': lambda x, y: T.or_(T.and_(T.tobool(x), T.not_(T.tobool(y))), T.and_(T.not_(T.tobool(x)), T.tobool(y)))}.items():
    FN[_n] = (_u2(_f, 'b'), None)


@fn('divmod', 'x1 x2')
def _divmod(I, p):
    return (I.binop('floordiv', asarr(I, p.x1), p.x2), I.binop('mod', asarr(I, p.x1), p.x2))


@fn('modf', 'x')
def _modf(I, p):
    x, d = tonp(I, p.x)
    t = _map(x, lambda v: T.cast_f(T.trunc(v)))
    fr = _map(x, lambda v: T.cast_f(T.sub(v, T.trunc(v))))
    return (mkarr(I, fr, 'f'), mkarr(I, t, 'f'))


@fn('clip', 'a a_min=None a_max=None out=None min=None max=None')
def _clip(I, p):
    lo = p.a_min if p.a_min is not None else p.min
    hi = p.a_max if p.a_max is not None else p.max
    x, d = tonp(I, p.a)
    xs = [x]
    for b in (lo, hi):
        if b is not None:
            y, db = tonp(I, b)
            d = promote(d, db)
            xs.append(y)

    def f(v, *r):
        r = list(r)
        if lo is not None:
            v = T.maximum(v, r.pop(0))
        if hi is not None:
            v = T.minimum(v, r.pop(0))
        return cast(v, d)
    return _out(I, ew(I, f, xs, d), p.out, True)


@fn('isclose', 'a b rtol=1e-05 atol=1e-08 equal_nan=False')
def _isclose(I, p):
    x, d1 = tonp(I, p.a)
    y, d2 = tonp(I, p.b)
    return ew(I, lambda u, v: T.le(T.absv(T.sub(u, v)), T.add(p.atol, T.mul(p.rtol, T.absv(v)))), [x, y], 'b')


@fn('allclose', 'a b rtol=1e-05 atol=1e-08 equal_nan=False')
def _allclose(I, p):
    return call(I, 'all', [_isclose(I, p)], {})


@fn('array_equal', 'a1 a2 equal_nan=False')
def _array_equal(I, p):
    x, d1 = tonp(I, p.a1)
    y, d2 = tonp(I, p.a2)
    if x.shape != y.shape:
        return False
    r = compare(I, 'eq', asarr(I, p.a1), asarr(I, p.a2))
    return item(I, call(I, 'all', [r], {}))


@fn('where', None)
def _where(I, a, k, name):
    if len(a) == 1:
        return _nonzero(I, Args(I, 'a', a, {}, 'where'))
    c, dc = tonp(I, a[0])
    x, dx = tonp(I, a[1])
    y, dy = tonp(I, a[2])
    d = promote(dx, dy)
    if 'g' in (dx, dy) and (dx == 'f' and not isinstance(a[1], Arr) or dy == 'f' and not isinstance(a[2], Arr)):
        d = 'g'

    def f(cc, u, v):
        if dc == 'O':
            cc = I.truth(cc)
        if d in 'figb':
            return T.ite(T.tobool(cc) if isinstance(cc, Term) else bool(cc), cast(u, d), cast(v, d))
        if isinstance(cc, Term):
            cc = I.decide(T.tobool(cc))
        return u if cc else v
    if d == 'U':
        x, y = _conv(I, x, dx, d), _conv(I, y, dy, d)
    r = ew(I, f, [c, x, y], d)
    if isinstance(r, Arr) and r.ndim == 0:
        r.zero = True
    return r


def _mask(I, a):
    x, d = tonp(I, a)
    return _map(x, lambda v: I.truth(v)).astype(bool)


def _lazynz(I, a):
    x, d = tonp(I, a)
    if x.ndim != 1 or d not in 'bif':
        return None
    gs = [_settle(I, T.tobool(g) if isinstance(g, Term) else bool(g)) for g in x]
    if all(not isinstance(g, Term) for g in gs):
        return None
    return SelV(I.newarr(list(range(len(gs))), (len(gs),), 'i'), gs)


def _flatnonzero(I, p):
    a = asarr(I, p.a)
    r = _lazynz(I, Arr(a.buf, a.idx.reshape(-1)))
    return r if r is not None else _frompy(I, np.flatnonzero(_mask(I, a)))


@fn('nonzero', 'a')
def _nonzero(I, p):
    r = _lazynz(I, p.a)
    if r is not None:
        return (r,)
    m = _mask(I, p.a)
    if m.ndim == 0:
        I.throw('ValueError', 'Calling nonzero on 0d arrays is not allowed.')
    return tuple(_frompy(I, x) for x in np.nonzero(m))


FN['flatnonzero'] = (_flatnonzero, 'a')
FN['argwhere'] = (lambda I, p: _frompy(I, np.argwhere(_mask(I, p.a))), 'a')


@fn('select', 'condlist choicelist default=0')
def _select(I, p):
    cs = I.libs.tolist(I, p.condlist)
    xs = I.libs.tolist(I, p.choicelist)
    r = p.default
    for c, x in reversed(list(zip(cs, xs))):
        r = _where(I, [c, x, r], {}, 'where')
    return r


@fn('piecewise', None)
def _piecewise(I, a, k, name):
    x, d = tonp(I, a[0])
    cs = [tonp(I, c)[0] for c in I.libs.tolist(I, a[1])]
    fs = I.libs.tolist(I, a[2])
    out = np.empty(x.shape, dtype=object)
    out[...] = _ZERO[d]
    res = mkarr(I, out, d)
    acc = [np.zeros(x.shape, dtype=bool)]
    if len(fs) == len(cs) + 1:
        rest = np.ones(x.shape, dtype=bool)
        for c in cs:
            rest = rest & ~_map(c, I.truth).astype(bool)
        cs = cs + [rest]
    for c, f in zip(cs, fs):
        m = _map(c, I.truth).astype(bool)
        if not m.any():
            continue
        v = f
        if not I.libs.isscalar(f):
            v = I.call(f, [getitem(I, asarr(I, a[0]), _frompy(I, m))], {})
        setitem(I, res, _frompy(I, m), v)
    return res


@fn('interp', 'x xp fp left=None right=None period=None')
def _interp(I, p):
    x, _ = tonp(I, p.x)
    xp = list(tonp(I, p.xp)[0])
    fp = list(tonp(I, p.fp)[0])

    def f(v):
        r = fp[-1] if p.right is None else p.right
        r = T.ite(T.le(v, xp[-1]), fp[-1], r)
        for i in range(len(xp) - 2, -1, -1):
            seg = T.add(fp[i], T.mul(T.sub(v, xp[i]), T.div(T.sub(fp[i + 1], fp[i]), T.sub(xp[i + 1], xp[i]))))
            r = T.ite(T.lt(v, xp[i + 1]), seg, r)
        return cast(T.ite(T.lt(v, xp[0]), fp[0] if p.left is None else p.left, r), 'f')
    return mkarr(I, _map(x, f), 'f')


@fn('vectorize', 'pyfunc otypes=None doc=None excluded=None cache=False signature=None')
def _vectorize(I, p):
    if p.signature is not None or p.excluded is not None:
        raise Unsupported('np.vectorize with a signature')
    d0 = None
    if p.otypes is not None:
        d0 = parse_dtype(I, I.libs.tolist(I, p.otypes)[0] if not isinstance(p.otypes, str) else p.otypes)

    def run(I, a, k):
        names = list(k)
        xs = [tonp(I, v) for v in list(a) + [k[n] for n in names]]
        bs = bcast(I, *[x[0] for x in xs])
        outs = []
        for vals in zip(*[b.reshape(-1) for b in bs]):
            vals = [scalar(I, v, d) if d != 'O' else v for v, (_, d) in zip(vals, xs)]
            outs.append(I.call(p.pyfunc, vals[:len(a)], dict(zip(names, vals[len(a):]))))
        if not outs:
            if d0 is None:
                I.throw('ValueError', 'cannot call `vectorize` on size 0 inputs unless `otypes` is set')
            return I.newarr([], bs[0].shape, d0)

        def pack(vs):
            d = d0 or dtype_of(I, vs[0])
            vs = [item(I, v) if isinstance(v, Arr) and v.ndim == 0 else v for v in vs]
            r = I.newarr([cast(v, d) if d in 'figb' else v for v in vs], bs[0].shape, d, True)
            return r
        if isinstance(outs[0], tuple):
            return tuple(pack([o[i] for o in outs]) for i in range(len(outs[0])))
        return pack(outs)
    return OpaqueV('vectorized', call=run)


@fn('frompyfunc', 'func nin nout')
def _frompyfunc(I, p):
    def run(I, a, k):
        xs = [tonp(I, v)[0] for v in a]
        return ew(I, lambda *v: I.call(p.func, list(v), {}), xs, 'O')
    return OpaqueV('pyufunc', call=run)


@fn('apply_along_axis', None)
def _aaa(I, a, k, name):
    f, ax, arr = a[0], _int(I, a[1]), asarr(I, a[2])
    mv = np.moveaxis(arr.idx, ax, -1)
    lead = mv.shape[:-1]
    rs = [I.call(f, [Arr(arr.buf, r)] + a[3:], k) for r in mv.reshape(-1, mv.shape[-1])]
    xs = [tonp(I, r) for r in rs]
    d = promote(*[x[1] for x in xs])
    o = np.empty((len(xs),) + xs[0][0].shape, dtype=object)
    for i, x in enumerate(xs):
        o[i] = x[0]
    o = o.reshape(lead + xs[0][0].shape)
    n = xs[0][0].ndim
    if n:
        o = np.moveaxis(o, list(range(len(lead), len(lead) + n)), list(range(ax, ax + n)))
    return mkarr(I, o, d)


# ------------------------------------------------------------------ reductions
def _lanes(x, axis):
    """(lanes as 2-d, result shape, keepdims shape)"""
    if axis is None:
        return x.reshape(1, -1), (), (1,) * x.ndim
    ax = axis if isinstance(axis, tuple) else (axis,)
    ax = tuple(sorted(a % x.ndim for a in ax))
    rest = [i for i in range(x.ndim) if i not in ax]
    mv = x.transpose(rest + list(ax))
    sh = tuple(x.shape[i] for i in rest)
    n = int(np.prod([x.shape[i] for i in ax]))
    return mv.reshape(-1, n) if n else np.empty((int(np.prod(sh)), 0), dtype=object), sh, \
        tuple(1 if i in ax else s for i, s in enumerate(x.shape))


def _reduce(I, name, a, axis, keep, f, d):
    x, d0 = tonp(I, a)
    ax = _ax(I, axis)
    if ax is not None:
        for q in ax if isinstance(ax, tuple) else (ax,):
            if not -x.ndim <= q < x.ndim:
                I.throw('ValueError', 'axis %d is out of bounds for array of dimension %d' % (q, x.ndim))
    lanes, sh, ksh = _lanes(x, ax)
    out = np.empty(lanes.shape[0], dtype=object)
    for i in range(lanes.shape[0]):
        out[i] = f(list(lanes[i]))
    return mkarr(I, out.reshape(ksh if keep else sh), d)


def _rsum(xs):
    r = 0
    for x in xs:
        r = T.add(r, T._num(x))
    return r


def _rprod(xs):
    r = 1
    for x in xs:
        r = T.mul(r, T._num(x))
    return r


def _rfun(name):
    def g(I, p):
        a = p.a
        x, d0 = tonp(I, a)
        if d0 == 'O':
            if name in ('sum',):
                def f(xs):
                    r = 0
                    for v in xs:
                        r = I.binop('add', r, v)
                    return r
                return _reduce(I, name, a, p.axis, p.keepdims, f, 'O')
            if name in ('any', 'all'):
                a = mkarr(I, _map(x, I.truth), 'b', True)
                d0 = 'b'
            else:
                raise Unsupported('numpy.%s on objects' % name)
        if d0 == 'U':
            I.throw('TypeError', 'cannot reduce strings')
        if p._d.get('out') is not None:
            raise Unsupported('out= in reduction')
        wh = p._d.get('where', True)
        if wh is not True and wh is not None:
            raise Unsupported('where= in reduction')
        init = p._d.get('initial')
        dd = parse_dtype(I, p._d.get('dtype'))
        if dd and dd != d0 and name in ('sum', 'prod', 'mean'):
            a = _m_astype(I, asarr(I, a), [DTypeV(dd)], {})
            d0 = dd
        nb = 'i' if d0 == 'b' else d0
        if name == 'sum':
            f, d = (lambda xs: cast(_rsum(xs), nb)), nb
        elif name == 'prod':
            f, d = (lambda xs: cast(_rprod(xs), nb)), nb
        elif name == 'mean':
            d = 'f'

            def f(xs):
                return T.div(T.cast_f(_rsum(xs)), len(xs)) if xs else float('nan')
        elif name in ('max', 'min'):
            d = d0
            op = T.maximum if name == 'max' else T.minimum

            def f(xs):
                if init is not None:
                    xs = [init] + xs
                if not xs:
                    I.throw('ValueError', 'zero-size array to reduction operation %simum which has no identity' % name)
                r = xs[0]
                for v in xs[1:]:
                    r = op(r, v)
                return cast(r, d)
        elif name == 'any':
            f, d = (lambda xs: T.or_(*[T.tobool(v) if isinstance(v, Term) else bool(v) for v in xs])), 'b'
        elif name == 'all':
            f, d = (lambda xs: T.and_(*[T.tobool(v) if isinstance(v, Term) else bool(v) for v in xs])), 'b'
        elif name == 'ptp':
            d = d0

            def f(xs):
                m, n = xs[0], xs[0]
                for v in xs[1:]:
                    m, n = T.maximum(m, v), T.minimum(n, v)
                return T.sub(m, n)
        elif name == 'count_nonzero':
            d = 'i'
            f = lambda xs: _rsum([T.ite(T.tobool(v), 1, 0) if isinstance(v, Term) else int(bool(v)) for v in xs])
        elif name in ('var', 'std'):
            d = 'f'
            dof = p._d.get('ddof', 0)

            def f(xs):
                m = T.div(_rsum(xs), len(xs))
                s = _rsum([T.power(T.sub(v, m), 2) for v in xs])
                r = T.div(s, len(xs) - dof)
                return T.sqrt(r) if name == 'std' else T.cast_f(r)
        elif name == 'median':
            d = 'f'

            def f(xs):
                s = _sorted(I, xs)
                n = len(s)
                return T.cast_f(s[n // 2] if n % 2 else T.div(T.add(s[n // 2 - 1], s[n // 2]), 2))
        if name in ('sum', 'prod') and init is not None:
            g0 = f
            f = lambda xs: (T.add if name == 'sum' else T.mul)(init, g0(xs))
        return _reduce(I, name, a, p.axis, p.keepdims, f, d)
    return g


for _n in ('sum', 'prod'):
    FN[_n] = (_rfun(_n), 'a axis=None dtype=None out=None keepdims=False initial=None where=True')
FN['product'] = FN['prod']
FN['mean'] = (_rfun('mean'), 'a axis=None dtype=None out=None keepdims=False where=True')
for _n, _al in {'max': 'max amax', 'min': 'min amin'}.items():
    for _m in _al.split():
        FN[_m] = (_rfun(_n), 'a axis=None out=None keepdims=False initial=None where=True')
for _n in ('any', 'all', 'ptp'):
    FN[_n] = (_rfun(_n), 'a axis=None out=None keepdims=False where=True')
FN['count_nonzero'] = (_rfun('count_nonzero'), 'a axis=None keepdims=False')
for _n in ('var', 'std'):
    FN[_n] = (_rfun(_n), 'a axis=None dtype=None out=None ddof=0 keepdims=False')
FN['median'] = (_rfun('median'), 'a axis=None out=None overwrite_input=False keepdims=False')
for _n, _m in {'nansum': 'sum', 'nanmean': 'mean', 'nanmax': 'max', 'nanmin': 'min'}.items():
    FN[_n] = FN[_m]      # on arrays without NaN


@fn('average', 'a axis=None weights=None returned=False')
def _average(I, p):
    if p.weights is None:
        return call(I, 'mean', [p.a], {'axis': p.axis})
    num = call(I, 'sum', [I.binop('mul', asarr(I, p.a), asarr(I, p.weights))], {'axis': p.axis})
    return I.binop('truediv', num, call(I, 'sum', [p.weights], {}))


def _less(I, x, y):
    r = I.compare('lt', x, y)
    return I.truth(r)


def _sorted(I, xs):
    out = []
    for x in xs:
        j = len(out)
        while j > 0 and _less(I, x, out[j - 1]):
            j -= 1
        out.insert(j, x)
    return out


def _argsorted(I, xs, less=None):
    less = less or (lambda i, j: _less(I, xs[i], xs[j]))
    out = []
    for i in range(len(xs)):
        j = len(out)
        while j > 0 and less(i, out[j - 1]):
            j -= 1
        out.insert(j, i)
    return out


def _argext(kind):
    def g(I, p):
        x, d0 = tonp(I, p.a)

        def f(xs):
            if not xs:
                I.throw('ValueError', 'attempt to get %s of an empty sequence' % kind)
            b = 0
            for i in range(1, len(xs)):
                lt = _less(I, xs[i], xs[b]) if kind == 'argmin' else _less(I, xs[b], xs[i])
                if lt:
                    b = i
            return b
        if d0 == 'b':
            # first True / first False
            def f(xs, want=(kind == 'argmax')):
                for i, v in enumerate(xs):
                    if I.truth(v) == want:
                        return i
                return 0
        return _reduce(I, kind, p.a, p.axis, p.keepdims, f, 'i')
    return g


for _n in ('argmin', 'argmax'):
    FN[_n] = FN['nan' + _n] = (_argext(_n), 'a axis=None out=None keepdims=False')


@fn('sort', 'a axis=-1 kind=None order=None stable=None')
def _sort(I, p):
    x, d = tonp(I, p.a)
    if p.axis is None:
        x = x.reshape(-1)
        ax = -1
    else:
        ax = _int(I, p.axis)
    if x.ndim == 0:
        I.throw('ValueError', 'axis -1 is out of bounds for array of dimension 0')
    mv = np.moveaxis(x, ax, -1).copy()
    fl = mv.reshape(-1, mv.shape[-1])
    for i in range(fl.shape[0]):
        for j, v in enumerate(_sorted(I, list(fl[i]))):
            fl[i, j] = v
    return mkarr(I, np.moveaxis(fl.reshape(mv.shape), -1, ax), d)


@fn('argsort', 'a axis=-1 kind=None order=None stable=None')
def _argsort(I, p):
    x, d = tonp(I, p.a)
    ax = -1 if p.axis is None else _int(I, p.axis)
    if p.axis is None:
        x = x.reshape(-1)
    mv = np.moveaxis(x, ax, -1)
    fl = mv.reshape(-1, mv.shape[-1])
    out = np.array([_argsorted(I, list(r)) for r in fl], dtype=int).reshape(mv.shape)
    return _frompy(I, np.moveaxis(out, -1, ax))


@fn('lexsort', 'keys axis=-1')
def _lexsort(I, p):
    ks = [list(tonp(I, k)[0]) for k in I.libs.iterate(I, p.keys)]
    n = len(ks[0])

    def less(i, j):
        for k in reversed(ks):
            if _less(I, k[i], k[j]):
                return True
            if _less(I, k[j], k[i]):
                return False
        return False
    return _frompy(I, np.array(_argsorted(I, list(range(n)), less), dtype=int))


@fn('unique', 'ar return_index=False return_inverse=False return_counts=False axis=None')
def _unique(I, p):
    if p.axis is not None:
        raise Unsupported('np.unique(axis)')
    x, d = tonp(I, p.ar)
    xs = list(x.reshape(-1))
    order = _argsorted(I, xs)
    groups = []
    for i in order:
        if groups and not _less(I, xs[groups[-1][0]], xs[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    r = I.newarr([xs[g[0]] for g in groups], (len(groups),), d)
    out = [r]
    if p.return_index:
        out.append(_frompy(I, np.array([min(g) for g in groups], dtype=int)))
    if p.return_inverse:
        inv = np.zeros(len(xs), dtype=int)
        for n, g in enumerate(groups):
            inv[g] = n
        out.append(_frompy(I, inv.reshape(x.shape)))
    if p.return_counts:
        out.append(_frompy(I, np.array([len(g) for g in groups], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def _member(I, x, ys):
    return any(I.truth(I.compare('eq', x, y)) for y in ys)


@fn('isin in1d', 'element test_elements assume_unique=False invert=False')
def _isin(I, p):
    x, d = tonp(I, p.element)
    ys = list(tonp(I, p.test_elements)[0].reshape(-1))

    def f(v):
        r = T.or_(*[T.eq(v, y) for y in ys])
        return T.not_(r) if p.invert else r
    return mkarr(I, _map(x, f), 'b')


def _setop(kind):
    def g(I, p):
        a, da = tonp(I, p.ar1)
        b, db = tonp(I, p.ar2)
        d = promote(da, db)
        a, b = list(a.reshape(-1)), list(b.reshape(-1))
        if kind == 'intersect1d':
            xs = [x for x in a if _member(I, x, b)]
        elif kind == 'union1d':
            xs = a + b
        elif kind == 'setdiff1d':
            xs = [x for x in a if not _member(I, x, b)]
        else:
            xs = [x for x in a if not _member(I, x, b)] + [x for x in b if not _member(I, x, a)]
        u = []
        for x in xs:
            if not _member(I, x, u):
                u.append(x)
        r = I.newarr([cast(x, d) if d in 'figb' else x for x in _sorted(I, u)], (len(u),), d)
        return r
    return g


for _n in ('intersect1d', 'union1d', 'setdiff1d', 'setxor1d'):
    FN[_n] = (_setop(_n), 'ar1 ar2 assume_unique=False')


@fn('searchsorted', 'a v side=left sorter=None')
def _searchsorted(I, p):
    xs = list(tonp(I, p.a)[0])
    v, d = tonp(I, p.v)

    def f(x):
        n = 0
        for y in xs:
            if (_less(I, y, x) if p.side == 'left' else not _less(I, x, y)):
                n += 1
            else:
                break
        return n
    return mkarr(I, _map(v, f), 'i')


@fn('digitize', 'x bins right=False')
def _digitize(I, p):
    return _searchsorted(I, Args(I, 'a v side=left sorter=None', [p.bins, p.x, 'left' if p.right else 'right'], {}, 'digitize'))


@fn('diff', 'a n=1 axis=-1')
def _diff(I, p):
    a = asarr(I, p.a)
    ax = _int(I, p.axis) % max(a.ndim, 1)
    if a.ndim == 0:
        I.throw('ValueError', 'diff requires input that is at least one dimensional')
    for _ in range(_int(I, p.n)):
        s1 = [SliceV(None, None, None)] * a.ndim
        s2 = list(s1)
        s1[ax], s2[ax] = SliceV(1, None, None), SliceV(None, -1, None)
        x, y = getitem(I, a, tuple(s1)), getitem(I, a, tuple(s2))
        if dtype_of(I, a) == 'b':
            a = compare(I, 'ne', x, y)
        else:
            a = binop(I, 'sub', x, y)
    return a


FN['ediff1d'] = (lambda I, p: _diff(I, Args(I, 'a n=1 axis=-1', [call(I, 'ravel', [p.a], {})], {}, 'diff')), 'a')


def _cum(op):
    def g(I, p):
        x, d = tonp(I, p.a)
        if p.axis is None:
            x = x.reshape(-1)
            ax = 0
        else:
            ax = _int(I, p.axis)
        d = 'i' if d == 'b' and op in (T.add, T.mul) else d
        mv = np.moveaxis(x, ax, -1).copy()
        fl = mv.reshape(-1, mv.shape[-1])
        for r in fl:
            for j in range(1, len(r)):
                r[j] = op(r[j - 1], r[j])
            for j in range(len(r)):
                r[j] = cast(r[j], d)
        return mkarr(I, np.moveaxis(fl.reshape(mv.shape), -1, ax), d)
    return g


FN['cumsum'] = (_cum(T.add), 'a axis=None dtype=None out=None')
FN['cumprod'] = (_cum(T.mul), 'a axis=None dtype=None out=None')


def _ufmethod(I, uf, meth, a, k):
    red = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any', 'logical_and': 'all'}
    if meth == 'reduce' and uf in red:
        k = dict(k)
        if len(a) < 2:
            k.setdefault('axis', 0)
        return call(I, red[uf], a, k)
    if meth == 'accumulate':
        op = {'add': T.add, 'multiply': T.mul, 'maximum': T.maximum, 'minimum': T.minimum,
              'logical_or': T.or_, 'logical_and': T.and_}.get(uf)
        if op:
            return _cum(op)(I, Args(I, 'a axis=0 dtype=None out=None', a, k, uf))
    if meth == 'outer':
        x, y = asarr(I, a[0]), asarr(I, a[1])
        xi = _view(I, x, x.idx.reshape(x.shape + (1,) * y.ndim))
        return call(I, uf, [xi, y], k)
    if meth == 'at' and len(a) == 3:
        ix = np.atleast_1d(_ints(I, a[1]))
        v = np.broadcast_to(tonp(I, a[2])[0], ix.shape)
        op = {'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'maximum': T.maximum, 'minimum': T.minimum}.get(uf)
        if op:
            for i, x in zip(ix.reshape(-1), v.reshape(-1)):
                setitem(I, a[0], int(i), op(I.libs.unwrap(I, getitem(I, a[0], int(i))), x))
            return None
    raise Unsupported('numpy.%s.%s' % (uf, meth))


# ------------------------------------------------------------------ linear algebra
def _mix(I, *vs):
    xs = [tonp(I, v) for v in vs]
    d = promote(*[x[1] for x in xs])
    if d not in 'figb':
        raise Unsupported('linear algebra on objects')
    if d == 'b':
        d = 'i'
    return [_conv(I, x[0], x[1], d) for x in xs], d


def _lin2(f):
    def g(I, p):
        (x, y), d = _mix(I, p.a, p.b)
        r = _np(I, f, x, y)
        r = r if isinstance(r, np.ndarray) else _box(r)
        return mkarr(I, _map(r, lambda v: cast(v, d)), d)
    return g


FN['dot'] = (_lin2(np.dot), 'a b out=None')
FN['matmul'] = (_lin2(np.matmul), 'a b')
FN['outer'] = (_lin2(np.outer), 'a b')
FN['outer'] = (_lin2(np.outer), 'a b')
FN['inner'] = (_lin2(np.inner), 'a b')
FN['kron'] = (_lin2(np.kron), 'a b')
FN['vdot'] = (_lin2(lambda x, y: np.dot(x.ravel(), y.ravel())), 'a b')
FN['linalg.vecdot'] = FN['vecdot'] = (lambda I, p: call(I, 'sum', [I.binop('mul', asarr(I, p.a), asarr(I, p.b))], {'axis': p.axis}), 'a b axis=-1')
FN['linalg.cross'] = FN['cross'] = (lambda I, p: _cross(I, p), 'a b axisa=-1 axisb=-1 axisc=-1 axis=None')


def _cross(I, p):
    (x, y), d = _mix(I, p.a, p.b)
    axa, axb, axc = (_int(I, p.axis),) * 3 if p.axis is not None else (_int(I, p.axisa), _int(I, p.axisb), _int(I, p.axisc))
    try:
        x, y = np.moveaxis(x, axa, -1), np.moveaxis(y, axb, -1)
    except Exception as e:
        I.throw('ValueError', str(e))
    if x.shape[-1] not in (2, 3) or y.shape[-1] not in (2, 3):
        I.throw('ValueError', 'incompatible dimensions for cross product')
    if x.shape[-1] == 2 or y.shape[-1] == 2:
        raise Unsupported('2-d cross product')
    x, y = bcast(I, x, y)
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape[:-1]):
        u, v = x[i], y[i]
        o[i + (0,)] = cast(T.sub(T.mul(u[1], v[2]), T.mul(u[2], v[1])), d)
        o[i + (1,)] = cast(T.sub(T.mul(u[2], v[0]), T.mul(u[0], v[2])), d)
        o[i + (2,)] = cast(T.sub(T.mul(u[0], v[1]), T.mul(u[1], v[0])), d)
    return mkarr(I, np.moveaxis(o, -1, axc), d)


@fn('tensordot', 'a b axes=2')
def _tensordot(I, p):
    (x, y), d = _mix(I, p.a, p.b)
    ax = p.axes
    if not isinstance(ax, int):
        ax = [np.atleast_1d(_ints(I, q)).tolist() for q in I.libs.tolist(I, ax)]
    return mkarr(I, _map(np.asarray(_np(I, np.tensordot, x, y, axes=ax), dtype=object), lambda v: cast(v, d)), d)


@fn('einsum', None)
def _einsum(I, a, k, name):
    k.pop('optimize', None)
    if k:
        raise Unsupported('einsum keyword')
    spec = a[0]
    if not isinstance(spec, str):
        raise Unsupported('einsum with sublists')
    xs, d = _mix(I, *a[1:])
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    subs = ins.split(',')
    if len(subs) != len(xs):
        I.throw('ValueError', 'einstein sum subscripts string: wrong number of operands')
    if '...' in spec:
        letters = [c for c in 'ABCDEFGHIJKLMNOP' if c not in spec]
        nb = 0
        subs2 = []
        for s, x in zip(subs, xs):
            if '...' in s:
                n = x.ndim - (len(s) - 3)
                nb = max(nb, n)
        for s, x in zip(subs, xs):
            if '...' in s:
                n = x.ndim - (len(s) - 3)
                s = s.replace('...', ''.join(letters[nb - n:nb]))
            subs2.append(s)
        if '->' in spec:
            out = out.replace('...', ''.join(letters[:nb]))
        else:
            al = ''.join(subs2)
            out = ''.join(letters[:nb]) + ''.join(sorted(c for c in set(al) if al.count(c) == 1 and c not in letters[:nb]))
        subs = subs2
    elif '->' not in spec:
        al = ''.join(subs)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, x in zip(subs, xs):
        if len(s) != x.ndim:
            I.throw('ValueError', 'einstein sum subscripts string contains the wrong number of subscripts for operand')
        for c, n in zip(s, x.shape):
            if c in dims and dims[c] != n and 1 not in (dims[c], n):
                I.throw('ValueError', 'operands could not be broadcast together in einsum')
            dims[c] = max(dims.get(c, 1), n) if n != 0 else 0
    for c in out:
        if c not in dims:
            I.throw('ValueError', 'einstein sum subscripts string included output subscript which never appeared in an input')
    summed = [c for c in dims if c not in out]
    o = np.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in np.ndindex(o.shape):
        env = dict(zip(out, ix))
        acc = 0
        for jx in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, jx))
            t = 1
            for s, x in zip(subs, xs):
                t = T.mul(t, x[tuple(env[c] if n > 1 else 0 for c, n in zip(s, x.shape))])
            acc = T.add(acc, t)
        o[ix] = cast(acc, d)
    return mkarr(I, o, d)


@fn('trace linalg.trace', 'a offset=0 axis1=0 axis2=1')
def _trace(I, p):
    x, d = tonp(I, p.a)
    dg = np.diagonal(x, _int(I, p.offset), _int(I, p.axis1), _int(I, p.axis2))
    lanes = dg.reshape(-1, dg.shape[-1])
    o = np.empty(lanes.shape[0], dtype=object)
    for i in range(lanes.shape[0]):
        o[i] = cast(_rsum(lanes[i]), d)
    return mkarr(I, o.reshape(dg.shape[:-1]), d)


@fn('linalg.norm linalg.vector_norm', 'x ord=None axis=None keepdims=False')
def _norm(I, p):
    x, d = tonp(I, p.x)
    if d not in 'figb':
        raise Unsupported('norm of objects')
    o = I.libs.unwrap(I, p.ord)
    ax = _ax(I, p.axis)
    nd = (x.ndim if ax is None else (len(ax) if isinstance(ax, tuple) else 1))
    if nd >= 2 and o not in (None, 'fro'):
        raise Unsupported('matrix norm')

    def f(xs):
        if o is None or o == 2 or o == 'fro':
            return T.sqrt(_rsum([T.mul(T._num(v), T._num(v)) for v in xs]))
        if o == 1:
            return T.cast_f(_rsum([T.absv(v) for v in xs]))
        if o in (math.inf, -math.inf):
            r = T.absv(xs[0])
            for v in xs[1:]:
                r = (T.maximum if o > 0 else T.minimum)(r, T.absv(v))
            return T.cast_f(r)
        if isinstance(o, (int, float)):
            return T.power(T.cast_f(_rsum([T.power(T.absv(v), o) for v in xs])), 1.0 / o)
        raise Unsupported('norm order')
    return _reduce(I, 'norm', p.x, ax, p.keepdims, f, 'f')


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return T.sub(T.mul(m[0][0], m[1][1]), T.mul(m[0][1], m[1][0]))
    r = 0
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        t = T.mul(m[0][j], _det(sub))
        r = T.add(r, t) if j % 2 == 0 else T.sub(r, t)
    return r


def _inv(m):
    n = len(m)
    d = _det(m)
    if n == 1:
        return [[T.div(1.0, d)]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            v = T.div(_det(sub), d)
            out[i][j] = v if (i + j) % 2 == 0 else T.neg(v)
    return out


def _square(I, a):
    x, d = tonp(I, a)
    if x.ndim < 2 or x.shape[-1] != x.shape[-2]:
        I.throw('LinAlgError', 'Last 2 dimensions of the array must be square')
    if x.shape[-1] > 4:
        raise Unsupported('matrices larger than 4x4')
    return x


@fn('linalg.inv linalg.pinv', 'a')
def _linv(I, p):
    x = _square(I, p.a)
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape[:-2]):
        m = [list(r) for r in x[i]]
        if all(T.isnum(v) for r in m for v in r) and _det(m) == 0:
            I.throw('LinAlgError', 'Singular matrix')
        r = _inv(m)
        for j in range(len(r)):
            for k in range(len(r)):
                o[i + (j, k)] = cast(r[j][k], 'f')
    return mkarr(I, o, 'f')


@fn('linalg.det', 'a')
def _ldet(I, p):
    x = _square(I, p.a)
    o = np.empty(x.shape[:-2], dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = cast(_det([list(r) for r in x[i]]), 'f')
    return mkarr(I, o, 'f')


@fn('linalg.solve', 'a b')
def _solve(I, p):
    inv = _linv(I, p)
    b, d = tonp(I, p.b)
    if b.ndim == 1:
        return call(I, 'matmul', [inv, p.b], {})
    return call(I, 'matmul', [inv, p.b], {})


@fn('linalg.matrix_power', 'a n')
def _mpow(I, p):
    n = _int(I, p.n)
    a = p.a
    if n < 0:
        a = call(I, 'linalg.inv', [a], {})
        n = -n
    r = call(I, 'eye', [asarr(I, a).shape[-1]], {})
    for _ in range(n):
        r = call(I, 'matmul', [r, a], {})
    return r


@fn('linalg.multi_dot', 'arrays')
def _multi_dot(I, p):
    xs = I.libs.tolist(I, p.arrays)
    r = xs[0]
    for x in xs[1:]:
        r = call(I, 'dot', [r, x], {})
    return r


@fn('polyval', 'p x')
def _polyval(I, p):
    r = 0
    for c in (iter_arr(I, asarr(I, p.p))):
        r = I.binop('add', I.binop('mul', r, p.x if isinstance(p.x, Arr) else asarr(I, p.x)), c)
    return r


@fn('gradient', 'f')
def _gradient(I, p):
    x = list(tonp(I, p.f)[0])
    n = len(x)
    if n < 2:
        I.throw('ValueError', 'Shape of array too small to calculate a numerical gradient')
    o = [T.sub(x[1], x[0])] + [T.div(T.sub(x[i + 1], x[i - 1]), 2) for i in range(1, n - 1)] + [T.sub(x[-1], x[-2])]
    return I.newarr([cast(v, 'f') for v in o], (n,), 'f')


@fn('trapz trapezoid', 'y x=None dx=1.0 axis=-1')
def _trapz(I, p):
    y = list(tonp(I, p.y)[0])
    x = list(tonp(I, p.x)[0]) if p.x is not None else None
    r = 0
    for i in range(len(y) - 1):
        w = T.sub(x[i + 1], x[i]) if x is not None else p.dx
        r = T.add(r, T.mul(w, T.div(T.add(y[i], y[i + 1]), 2)))
    return scalar(I, r, 'f')


@fn('convolve', 'a v mode=full')
def _convolve(I, p):
    a, d1 = tonp(I, p.a)
    v, d2 = tonp(I, p.v)
    n, m = len(a), len(v)
    d = promote(d1, d2)
    d = 'i' if d == 'b' else d
    full = [cast(_rsum([T.mul(T._num(a[i]), T._num(v[k - i])) for i in range(max(0, k - m + 1), min(n, k + 1))]), d) for k in range(n + m - 1)]
    if p.mode == 'same':
        L = max(n, m)
        s = (len(full) - L) // 2
        full = full[s:s + L]
    elif p.mode == 'valid':
        full = full[min(n, m) - 1:max(n, m)]
    return I.newarr(full, (len(full),), d)


@fn('pad', 'array pad_width mode=constant constant_values=0 **=None')
def _pad(I, p):
    x, d = tonp(I, p.array)
    w = p.pad_width
    w = _ints(I, w)
    ix = np.arange(x.size).reshape(x.shape) + 1
    if p.mode == 'constant':
        pi = np.pad(ix, w, mode='constant', constant_values=0)
    elif p.mode in ('edge', 'wrap', 'reflect', 'symmetric'):
        pi = np.pad(ix, w, mode=p.mode)
    else:
        raise Unsupported('pad mode')
    fl = x.reshape(-1)
    cv = p.constant_values
    o = np.empty(pi.shape, dtype=object)
    of = o.reshape(-1)
    for i, q in enumerate(pi.reshape(-1)):
        of[i] = fl[q - 1] if q else cast(I.libs.unwrap(I, cv), d)
    return mkarr(I, o, d)


@fn('bincount', 'x weights=None minlength=0')
def _bincount(I, p):
    ix = np.atleast_1d(_ints(I, p.x))
    n = max(int(ix.max()) + 1 if ix.size else 0, p.minlength)
    w = list(tonp(I, p.weights)[0]) if p.weights is not None else [1] * ix.size
    out = [0.0 if p.weights is not None else 0] * n
    for i, x in zip(ix, w):
        out[i] = T.add(out[i], x)
    return I.newarr(out, (n,), 'f' if p.weights is not None else 'i')


# ------------------------------------------------------------------ misc
@fn('issubdtype', 'a b')
def _issubdtype(I, p):
    def cls(v):
        if isinstance(v, DTypeV):
            return I.libs.NATIVE[NAMES[v.name]]
        if isinstance(v, str):
            return I.libs.NATIVE[NAMES[parse_dtype(I, v)]]
        c = I.libs.as_class(I, v)
        al = {'float': 'float64', 'int': 'int64', 'bool': 'bool_', 'str': 'str_', 'object': 'object_'}
        return I.libs.NATIVE[al[c.name]] if c.name in al else c
    a, b = cls(p.a), cls(p.b)
    if isinstance(p.b, NativeClass) and p.b.name == 'float':
        b = I.libs.NATIVE['float64']
    return b in a.mro


@fn('result_type promote_types', None)
def _result_type(I, a, k, name):
    return DTypeV(promote(*[parse_dtype(I, x) if not isinstance(x, Arr) and not I.libs.isscalar(x) else dtype_of(I, x) for x in a]))


@fn('can_cast', 'a b')
def _can_cast(I, p):
    raise Unsupported('np.can_cast')


FN['errstate'] = (lambda I, a, k, n: _inert_cm(I), None)
FN['printoptions'] = (lambda I, a, k, n: _inert_cm(I), None)
FN['seterr'] = FN['set_printoptions'] = (lambda I, a, k, n: None, None)
FN['finfo'] = (lambda I, a, k, n: OpaqueV('finfo', {'eps': float(np.finfo(float).eps), 'max': float(np.finfo(float).max),
                                                    'min': float(np.finfo(float).min), 'tiny': float(np.finfo(float).tiny)}), None)
FN['iinfo'] = (lambda I, a, k, n: OpaqueV('iinfo', {'max': 2 ** 63 - 1, 'min': -2 ** 63}), None)


def _inert_cm(I):
    o = OpaqueV('errstate')
    o.enter = lambda I: None
    o.exit = lambda I, e: False
    return o


@fn('ndindex', None)
def _ndindex(I, a, k, name):
    sh = _shape(I, a[0]) if len(a) == 1 else tuple(_int(I, x) for x in a)
    return I.libs.mkiter(I, I.newlist([tuple(int(q) for q in ix) for ix in np.ndindex(sh)]))


@fn('ndenumerate', 'arr')
def _ndenum(I, p):
    a = asarr(I, p.arr)
    return I.libs.mkiter(I, I.newlist([(tuple(ix), getitem(I, a, tuple(ix))) for ix in np.ndindex(a.shape)]))


@fn('nditer', 'arr')
def _nditer(I, p):
    a = asarr(I, p.arr)
    return I.libs.mkiter(I, I.newlist(iter_arr(I, Arr(a.buf, a.idx.reshape(-1)))))


@fn('unravel_index', 'indices shape')
def _unravel(I, p):
    r = np.unravel_index(_ints(I, p.indices), _shape(I, p.shape))
    return tuple(_frompy(I, x) if isinstance(x, np.ndarray) else scalar(I, int(x), 'i') for x in r)


@fn('array2string array_str array_repr', None)
def _a2s(I, a, k, name):
    return repr_arr(I, a[0])


@fn('shares_memory may_share_memory', 'a b')
def _shares(I, p):
    return p.a.buf == p.b.buf and bool(np.intersect1d(p.a.idx, p.b.idx).size)


@fn('copyto', 'dst src casting=same_kind where=True')
def _copyto(I, p):
    if p.where is True:
        setitem(I, p.dst, I.libs.ELLIPSIS, p.src)
    else:
        setitem(I, p.dst, I.libs.ELLIPSIS, _where(I, [p.where, p.src, p.dst], {}, 'where'))


@fn('putmask place', 'a mask values')
def _putmask(I, p):
    setitem(I, p.a, I.libs.ELLIPSIS, _where(I, [p.mask, p.values, p.a], {}, 'where'))


@fn('put', 'a ind v')
def _put(I, p):
    _m_put(I, p.a, [p.ind, p.v], {})


@fn('fill_diagonal', 'a val')
def _filld(I, p):
    for i in range(min(p.a.shape)):
        setitem(I, p.a, (i, i), p.val)


@fn('unwrap', 'p')
def _unwrap(I, p):
    raise Unsupported('np.unwrap')


# random
def _rnd(I, k, shape, sort='f'):
    sh = () if shape is None else _shape(I, shape)
    n = int(np.prod(sh)) if sh else 1
    xs = [I.fresh('random', sort) for _ in range(n)]
    I.events.extend(('random', I.site, x) for x in xs)
    if not sh:
        return xs[0]
    return I.newarr(xs, sh, sort)


FN['random.random'] = FN['random.random_sample'] = (lambda I, p: _rnd(I, 'u', p.size), 'size=None')
FN['random.rand'] = (lambda I, a, k, n: _rnd(I, 'u', tuple(a) if a else None), None)
FN['random.uniform'] = (lambda I, p: I.binop('add', p.low, I.binop('mul', I.binop('sub', p.high, p.low), _rnd(I, 'u', p.size))), 'low=0.0 high=1.0 size=None')


@fn('random.randint', 'low high=None size=None')
def _np_randint(I, p):
    lo, hi = (0, p.low) if p.high is None else (p.low, p.high)
    lo, hi = _int(I, lo), _int(I, hi)
    if hi <= lo:
        I.throw('ValueError', 'low >= high')
    if p.size is not None:
        n = int(np.prod(_shape(I, p.size)))
        return I.newarr([lo + I.choose(hi - lo) for _ in range(n)], _shape(I, p.size), 'i')
    I.events.append(('randint', I.site))
    return lo + I.choose(hi - lo)


@fn('random.choice', 'a size=None replace=True p=None')
def _np_choice(I, p):
    xs = I.libs.tolist(I, p.a) if not isinstance(I.libs.unwrap(I, p.a), int) else list(range(I.libs.unwrap(I, p.a)))
    if p.size is not None:
        raise Unsupported('np.random.choice(size)')
    if not xs:
        I.throw('ValueError', "'a' cannot be empty")
    if p.p is not None:
        return I.libs._choices(I, [I.newlist(xs)], {'weights': p.p, 'k': 1, '_one': True}) if False else _wchoice(I, xs, p.p)
    I.events.append(('randint', I.site))
    return xs[I.choose(len(xs))]


def _wchoice(I, xs, ws):
    ws = [I.libs.unwrap(I, w) for w in I.libs.tolist(I, ws)]
    if len(ws) != len(xs):
        I.throw('ValueError', "'a' and 'p' must have same size")
    u = I.fresh('random', 'f')
    I.events.append(('choice', tuple(xs), tuple(ws), I.site))
    acc = 0.0
    for x, w in zip(xs[:-1], ws):
        acc = T.add(acc, w)
        if I.decide(T.lt(u, acc)):
            return x
    return xs[-1]


def repr_arr(I, a):
    xs = elems(I, a)
    if all(T.isconst(x) for x in xs):
        try:
            return repr(np.array(xs).reshape(a.shape))
        except Exception:
            pass
    return T.mk('arrrepr', (str(a.shape),) + tuple(x if isinstance(x, (Term, int, float, str)) else repr(x) for x in xs), 's')
