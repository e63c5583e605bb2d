"""Abstract values and heap cells of the interpreter."""
import numpy as np
from . import terms as T


class Unsupported(Exception):
    """The analysis has no model for a construct: the check cannot decide."""


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return '&%d' % self.id


class ClassV:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = _c3(self)
        self.is_enum = any(isinstance(b, NativeClass) and b.name in ENUMS for b in self.mro)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def __repr__(self):
        return '<class %s>' % self.name


ENUMS = ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum')


class NativeClass:
    """A builtin or library class."""
    _tab = {}

    def __new__(cls, name, bases=(), py=None):
        key = name
        if key in cls._tab:
            return cls._tab[key]
        o = object.__new__(cls)
        cls._tab[key] = o
        o.name, o.bases, o.py = name, list(bases), py
        o.ns = {}
        o.mro = [o]
        for b in o.bases:
            for m in b.mro:
                if m not in o.mro:
                    o.mro.append(m)
        return o

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


def _c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                raise Unsupported('MRO conflict in %s' % cls.name)
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [cls.bases])


def subclass(c, d):
    return d in c.mro


class FuncV:
    def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    def __repr__(self):
        return '<function %s>' % self.name


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func == self.func and o.self_ == self.self_

    def __hash__(self):
        return hash((self.func, id(self.self_)))

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class PropertyV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, func):
        self.func = func


class ClassMV:
    def __init__(self, func):
        self.func = func


class ModuleV:
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return '<module %s>' % self.name


class LibV:
    """A name in a library namespace, e.g. numpy.linalg."""
    _tab = {}

    def __new__(cls, path):
        o = cls._tab.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._tab[path] = o
        return o

    def __repr__(self):
        return '<lib %s>' % self.path


class BuiltinV:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class EnumV:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class NamespaceV:
    def __init__(self, env):
        self.env = env


class DTypeV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DTypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


class OpaqueV:
    """A value the program only passes around (a solution, an open file...)."""
    def __init__(self, name, attrs=None, methods=None, cls=None, call=None):
        self.name, self.attrs, self.methods, self.cls = name, attrs or {}, methods or {}, cls
        self.call = call

    def __repr__(self):
        return '<%s>' % self.name


# ---------------------------------------------------------------- arrays
class Arr:
    """View of a buffer.  idx holds the flat buffer position of each element."""
    __slots__ = ('buf', 'idx', 'mem', 'zero')

    def __init__(self, buf, idx, mem=False, zero=False):
        self.buf, self.idx = buf, idx
        self.mem = mem       # memoryview (ndarray.data)
        self.zero = zero     # a 0-d ndarray rather than a numpy scalar

    @property
    def ndim(self):
        return self.idx.ndim

    @property
    def shape(self):
        return self.idx.shape

    @property
    def dims(self):
        return self.idx.shape

    @property
    def size(self):
        return self.idx.size

    def __repr__(self):
        return 'Arr(b%d, %s)' % (self.buf, self.shape)


class MaybeV:
    """A local bound on some of the joined branches only."""
    __slots__ = ('cond', 'value')

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class SelV:
    """Elements of a 1-d array whose condition holds, in order.

    arr has the full extent; guard[i] says whether element i is selected.  The
    value lives only in local variables: any use that is not element-wise
    forces it, splitting the trace on the undecided conditions."""
    __slots__ = ('arr', 'guard')

    def __init__(self, arr, guard):
        self.arr, self.guard = arr, tuple(guard)

    def same(self, o):
        return len(self.guard) == len(o.guard) and all(x is y for x, y in zip(self.guard, o.guard))

    def __repr__(self):
        return 'SelV(%r)' % (self.arr,)


# ---------------------------------------------------------------- cells
class Cell:
    pass


class ObjCell(Cell):
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, fields if fields is not None else {}

    def copy(self):
        c = ObjCell(self.cls, dict(self.fields))
        c.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ('cls', 'fields')})
        return c


class EnvCell(Cell):
    def __init__(self, vars, parent, module, locals_=None, globals_=(), func=None):
        self.vars, self.parent, self.module = vars, parent, module
        self.locals_, self.globals_, self.func = locals_, globals_, func

    def copy(self):
        c = EnvCell(dict(self.vars), self.parent, self.module, self.locals_, self.globals_, self.func)
        if getattr(self, 'isclass', False):
            c.isclass = True
        return c


class Seg:
    """Part of a list: either concrete items or a generic element over axes."""
    __slots__ = ('items', 'axes', 'elem', 'cond', 'order', 'tag', 'mat')

    def __init__(self, items=None, axes=None, elem=None, cond=True, order='nat', tag=None, mat=None):
        self.items, self.axes, self.elem, self.cond = items, axes, elem, cond
        self.order, self.tag = order, tag
        self.mat = mat or {}

    @property
    def gen(self):
        return self.items is None

    def clone(self, **kw):
        s = Seg(list(self.items) if self.items is not None else None, self.axes, self.elem,
                self.cond, self.order, self.tag, dict(self.mat))
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def __repr__(self):
        if self.gen:
            return 'Gen(%s, %r if %r, %s)' % (self.axes, self.elem, self.cond, self.order)
        return repr(self.items)


class ListCell(Cell):
    def __init__(self, segs, kind='list'):
        self.segs = segs
        self.kind = kind     # list | set | deque

    def copy(self):
        c = ListCell([s.clone() for s in self.segs], self.kind)
        c.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ('segs', 'kind')})
        return c

    @property
    def concrete(self):
        return all(not s.gen for s in self.segs)

    @property
    def items(self):
        out = []
        for s in self.segs:
            if s.gen:
                raise Unsupported('concrete items of a symbolic list')
            out.extend(s.items)
        return out


class DictCell(Cell):
    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return DictCell(dict(self.d))


class BufCell(Cell):
    """Storage of an array: a flat numpy object array of elements."""
    def __init__(self, data, dtype):
        self.data, self.dtype = data, dtype

    def copy(self):
        return BufCell(self.data.copy(), self.dtype)
