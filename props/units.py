"""Units and quantities."""
import itertools
import math
import re
import numpy as np
from sa.harness import Syms
from sa import terms as T

# accepted sizes of the named units, in the base unit of their dimension (SI / NIST SP 811)
TABLE = {
    'm': ('L', 1.0), 'mm': ('L', 1e-3), 'cm': ('L', 1e-2), 'km': ('L', 1e3), 'inch': ('L', 0.0254),
    'ft': ('L', 0.3048), 'yd': ('L', 0.9144), 'mi': ('L', 1609.344),
    's': ('T', 1.0), 'min': ('T', 60.0), 'hr': ('T', 3600.0), 'dy': ('T', 86400.0),
    'jd2000': ('D', 1.0),
    'deg': ('A', 1.0), 'rad': ('A', 180 / math.pi), 'arcsec': ('A', 1 / 3600), 'arcmin': ('A', 1 / 60),
    'hourangle': ('A', 15.0)}
BASE = {'L': 'm', 'T': 's', 'D': 'jd2000', 'A': 'deg'}
GROUPS = {d: [n for n, (dd, _) in TABLE.items() if dd == d] for d in 'LTDA'}


class K:
    """Handles into the analysed program."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.Q = ctx.name('celest.units.quantity.Quantity')
        self.u = {n: ctx.name('celest.units.' + n) for n in TABLE}

    def q(self, x, unit):
        return self.ctx.call(self.Q, x, self.unit(unit))

    def unit(self, e):
        """Unit of an expression: name, ('*', a, b), ('/', a, b), ('**', a, n), or a number."""
        I = self.ctx.I
        if isinstance(e, str):
            return self.u[e]
        if isinstance(e, (int, float)):
            return e
        if not isinstance(e, tuple):
            return e
        op, a, b = e
        return I.binop({'*': 'mul', '/': 'truediv', '**': 'pow'}[op], self.unit(a), self.unit(b))

    def to(self, q, unit):
        return self.ctx.meth(q, 'to', self.unit(unit))


def size(e, tab):
    """(factor, {dimension: power}) of a unit expression."""
    if isinstance(e, str):
        return tab[e], {TABLE[e][0]: 1}
    if isinstance(e, (int, float)):
        return float(e), {}
    op, a, b = e
    fa, da = size(a, tab)
    if op == '**':
        return fa ** b, {k: v * b for k, v in da.items() if v * b}
    fb, db = size(b, tab)
    s = 1 if op == '*' else -1
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
        if not d[k]:
            del d[k]
    return fa * fb ** s, d


def text(e):
    if isinstance(e, tuple):
        return '(%s%s%s)' % (text(e[1]), e[0], text(e[2]))
    return str(e)


COMPOUND = [
    (('/', 'km', 's'), ('/', 'm', 's')), (('/', 'km', 'hr'), ('/', 'm', 's')), (('/', 'mi', 'hr'), ('/', 'ft', 'min')),
    (('**', 'km', 2), ('**', 'm', 2)), (('**', 'cm', 3), ('**', 'inch', 3)), (('*', 'm', 'km'), ('**', 'cm', 2)),
    (('/', 'm', ('**', 's', 2)), ('/', 'km', ('**', 'hr', 2))), (('/', 'deg', 's'), ('/', 'rad', 'hr')),
    (('/', 'rad', ('**', 'min', 2)), ('/', 'arcsec', ('**', 's', 2))), (('*', 'hr', 'km'), ('*', 'mi', 's')),
    (('/', 1, 's'), ('/', 1, 'hr')), (('**', ('/', 'km', 'hr'), 2), ('**', ('/', 'm', 's'), 2)),
    (('/', ('*', 'km', 'deg'), 's'), ('/', ('*', 'rad', 'm'), 'min')), (('/', 'm', 'jd2000'), ('/', 'km', 'jd2000')),
    (('**', ('/', 'm', 's'), -1), ('/', 'hr', 'km')), (('*', ('/', 'km', 's'), 'hr'), 'm'),
    (('*', ('/', 'm', 's'), ('/', 's', 'hr')), ('/', 'km', 'min')), (('**', 'm', 0.5), ('**', 'km', 0.5)),
    (('/', ('/', 'm', 's'), 's'), ('/', 'cm', ('**', 'hr', 2))), (('/', 'm', ('/', 'm', 's')), 'min'),
    (('*', 1000.0, 'm'), 'km'), (('*', 2.5, ('/', 'km', 's')), ('/', 'm', 's')), (('/', ('*', 3.0, 'm'), 's'), ('/', 'km', 'hr')),
    (('*', 'm', 7.0), 'inch'), (('**', ('*', 2.0, 'm'), 3), ('**', 'cm', 3)), (('/', 'm', 'km'), ('/', 'cm', 'mi')),
    (('**', ('/', ('*', 2.0, 'km'), 'hr'), -2), ('/', ('**', 's', 2), ('**', 'm', 2))),
]


def scales(ctx, k):
    """Sizes the program itself assigns to its units (Quantity(1, unit) in base units)."""
    out = {}
    for n in TABLE:
        paths = ctx.I.explore(lambda: k.to(k.q(1.0, n), BASE[TABLE[n][0]]))
        v = paths[0].value
        if len(paths) != 1 or not isinstance(v, (int, float)):
            from sa.values import Unsupported
            raise Unsupported('size of unit %s' % n)
        out[n] = float(v)
    return out


def setup(ctx):
    try:
        return K(ctx)
    except Exception as e:
        ctx.undecide('units', '%s: %s' % (type(e).__name__, e))
        return None


def guarded(fn):
    """Report, instead of crash on, missing anchors and raising imports."""
    from sa.values import Unsupported
    from sa.interp import RaiseEx

    def run(ctx):
        try:
            return fn(ctx)
        except Unsupported as e:
            ctx.undecide('anchors', str(e))
            return ctx.finish('other', 'anchors not found', 1)
        except RaiseEx as e:
            ctx.violation('import', 'load', 'importing or setting up raises %s at %s' % (e.value, e.site))
            return ctx.finish('other', 'import', 1)
    run.__name__ = fn.__name__
    return run


RULE = ('Trace-partitioned abstract interpretation of the source: every branch of the functions reached from the public '
        'entry point becomes a guarded value graph over the symbolic inputs; each output graph is decided equal to the '
        'reference function by random interpretation of both graphs (valuations include the zeros of every comparison).')


@guarded
def u01(ctx):
    k = K(ctx)
    tab = scales(ctx, k)
    S = Syms()
    x, y = S.f('x', -1e6, 1e6, special=[0.0, 1.0, -1.0]), S.f('y', -1e6, 1e6)
    pairs = [(a, b) for g in GROUPS.values() for a in g for b in g]
    for a, b in pairs:
        def build(S, a=a, b=b):
            out = {}
            ctx.put(out, 's', k.to(k.q(x, a), b))
            ctx.put(out, 'v', k.to(k.q(ctx.arr([x, y]), a), b))
            ctx.put(out, 'm', k.to(k.q(ctx.arr([[x], [y]]), a), b))
            q = ctx.meth(k.q(x, a), 'convert_to', k.u[b])
            out['unit'] = ctx.get(q, 'unit') is k.u[b] or ctx.str(ctx.get(q, 'unit')) == b
            out['data'] = ctx.get(q, 'data')
            return out

        def ref(v, a=a, b=b):
            f = tab[a] / tab[b]
            o = {}
            ctx.expect(o, 's', v.x * f)
            ctx.expect(o, 'v', np.stack([v.x * f, v.y * f], -1))
            ctx.expect(o, 'm', np.stack([v.x * f, v.y * f], -1)[:, :, None])
            o['unit'] = True
            o['data'] = v.x * f
            return o
        ctx.case('%s->%s' % (a, b), build, ref, S=S, n=40, rtol=1e-12, atol=0)
    # units that differ in the factor only, however little
    near = []
    for f, g in ((1.5, 1.0), (0.5, 1.0), (1.0000001, 1.0), (1000000.5, 1000001.0), (2.25, 2.5), (1e-7, 2e-7), (-1.0, 1.0), (3, 3.5)):
        near += [(('*', f, 'km'), ('*', g, 'km')), (('*', f, 'hr'), 'hr' if g == 1.0 else ('*', g, 'hr')), (('*', f, ('/', 'km', 's')), ('*', g, ('/', 'km', 's'))),
                 (('/', ('*', f, 'deg'), 's'), ('/', ('*', g, 'deg'), 's')), (('*', f, ('**', 'm', 2)), ('*', g, ('**', 'm', 2)))]
    comp = COMPOUND + near
    comp += [(b, a) for a, b in comp]
    for a, b in comp:
        def build(S, a=a, b=b):
            out = {}
            ctx.put(out, 's', k.to(k.q(x, a), b))
            ctx.put(out, 'v', k.to(k.q(ctx.arr([x, y]), a), b))
            ub = k.unit(b)
            q = ctx.meth(k.q(x, a), 'convert_to', ub)
            out['unit'] = ctx.get(q, 'unit') is ub or ctx.str(ctx.get(q, 'unit')) == ctx.str(ub)
            ctx.put(out, 'data', ctx.get(q, 'data'))
            ctx.put(out, 'back', k.to(q, a))
            return out

        def ref(v, a=a, b=b):
            f = size(a, tab)[0] / size(b, tab)[0]
            o = {'unit': True}
            ctx.expect(o, 'data', v.x * f)
            ctx.expect(o, 'back', v.x)
            ctx.expect(o, 's', v.x * f)
            ctx.expect(o, 'v', np.stack([v.x * f, v.y * f], -1))
            return o
        ctx.case('%s->%s' % (text(a), text(b)), build, ref, S=S, n=40, rtol=1e-11, atol=0)
    # integer data keep their fractional result
    for a, b in [('m', 'km'), ('s', 'hr'), ('deg', 'rad'), ('arcsec', 'deg')]:
        S2 = Syms()
        i = S2.i('i', -5000, 5000)

        def build(S, a=a, b=b):
            out = {}
            ctx.put(out, 's', k.to(k.q(i, a), b))
            ctx.put(out, 'v', k.to(k.q(ctx.arr([i, i], 'i'), a), b))
            return out

        def ref(v, a=a, b=b):
            f = tab[a] / tab[b]
            o = {}
            ctx.expect(o, 's', v.i * f)
            ctx.expect(o, 'v', np.stack([v.i * f] * 2, -1))
            return o
        ctx.case('int %s->%s' % (a, b), build, ref, S=S2, n=40, rtol=1e-12, atol=0)
    return ctx.finish('other', RULE, 100)


@guarded
def u02(ctx):
    k = K(ctx)
    for n, (d, f) in TABLE.items():
        def build(S, n=n, d=d):
            return {'size': k.to(k.q(1.0, n), BASE[d]), 'name': ctx.str(k.u[n]), 'dimension': ctx.get(k.u[n], 'dimension')}
        ctx.case(n, build, lambda v, f=f, n=n, d=d: {'size': f, 'name': n, 'dimension': d}, S=Syms(), n=1, rtol=1e-13, atol=0,
                 where='celest/units/unit_initialization.py')
    return ctx.finish('other', RULE + ' Reference: the accepted (SI/NIST) size of each named unit in the base unit of its dimension.', 12)


@guarded
def u03(ctx):
    k = K(ctx)
    I = ctx.I
    S = Syms()
    xs = [S.f('x%d' % i, -100, 100) for i in range(3)]
    ys = [S.f('y%d' % i, 1, 100) for i in range(3)]
    ops = {'to': lambda a, b: ctx.meth(a, 'to', k.u['km']), 'to-same': lambda a, b: ctx.meth(a, 'to', k.u['m']),
           'convert_to': lambda a, b: ctx.meth(a, 'convert_to', k.u['cm']),
           'convert_to-same': lambda a, b: ctx.meth(a, 'convert_to', k.u['m']),
           'neg': lambda a, b: I.call(ctx.get(a, '__neg__'), [], {}), 'str': lambda a, b: ctx.str(k.q(1.5, 'm')),
           'add1': lambda a, b: ctx.op('add', a, 2.0), 'mul1': lambda a, b: ctx.op('mul', a, 2.0), 'rmul1': lambda a, b: ctx.op('mul', 2.0, a),
           'div1': lambda a, b: ctx.op('truediv', a, 2.0), 'rdiv1': lambda a, b: ctx.op('truediv', 2.0, b), 'rsub': lambda a, b: ctx.op('sub', 2.0, a)}
    for o in ('add', 'sub', 'mul', 'truediv'):
        ops[o] = lambda a, b, o=o: ctx.op(o, a, b)
    for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        ops[o] = lambda a, b, o=o: ctx.cmp(o, a, b)
    for (ua, ub) in (('m', 'km'), ('m', 'm'), ('m', 's')):
        for o, f in ops.items():
            if ub == 's' and o not in ('mul', 'truediv'):
                continue

            def build(S, f=f, ua=ua, ub=ub):
                da, db = ctx.arr(xs), ctx.arr(ys)
                a, b = k.q(da, ua), k.q(db, ub)
                r = f(a, b)
                out = {}
                shared = False
                cand = []
                if ctx.buf(r) is not None:
                    cand.append(r)
                    try:
                        cand.append(ctx.get(r, 'data'))
                    except Exception:
                        pass
                for c in cand:
                    if ctx.buf(c) in (ctx.buf(da), ctx.buf(db), ctx.buf(a), ctx.buf(b)) and ctx.buf(c) is not None:
                        shared = True
                out['result shares storage with an operand'] = shared
                ctx.put(out, 'a', ctx.get(a, 'data'))
                ctx.put(out, 'b', ctx.get(b, 'data'))
                ctx.put(out, 'da', da)
                ctx.put(out, 'db', db)
                out['ua'] = ctx.str(ctx.get(a, 'unit'))
                out['ub'] = ctx.str(ctx.get(b, 'unit'))
                return out

            def ref(v, ua=ua, ub=ub):
                o = {'result shares storage with an operand': False, 'ua': ua, 'ub': ub}
                X = np.stack([v['x%d' % i] for i in range(3)], -1)
                Y = np.stack([v['y%d' % i] for i in range(3)], -1)
                for l, z in (('a', X), ('b', Y), ('da', X), ('db', Y)):
                    ctx.expect(o, l, z)
                return o
            ctx.case('%s %s,%s' % (o, ua, ub), build, ref, S=S, n=20, rtol=1e-15, atol=0)
    # unit operands
    def shape(e):
        return (ctx.get(e, 'scale'), tuple(I.libs.iterate(I, ctx.get(e, 'powers'))),
                tuple(ctx.str(b) for b in I.libs.iterate(I, ctx.get(e, 'bases'))), ctx.str(e), ctx.get(e, 'dimension'))
    exprs = ['m', 'km', 'hr', 'deg', ('/', 'km', 's'), ('*', 2.0, 'm'), ('**', 'km', 2), ('/', ('*', 'km', 'deg'), ('**', 's', 2))]
    for a in exprs:
        for b in exprs:
            def build(S, a=a, b=b):
                A, B = k.unit(a), k.unit(b)
                before = (shape(A), shape(B))
                for o in ('mul', 'truediv'):
                    r = ctx.op(o, A, B)
                    ctx.op(o, r, A)
                    ctx.op('pow', r, 2)
                ctx.op('pow', A, 3)
                ctx.op('mul', A, 3.0)
                ctx.op('mul', 3.0, A)
                ctx.op('truediv', 1, A)
                q = k.q(2.0, A)
                ctx.op('mul', q, k.q(3.0, B))
                ctx.op('truediv', q, k.q(3.0, B))
                return {'operands': str((shape(A), shape(B)) == before)}
            ctx.case('unit algebra %s,%s' % (text(a), text(b)), build, lambda v: {'operands': 'True'}, S=Syms(), n=1)
    return ctx.finish('other', RULE + ' The heap after the operation is compared with the heap before it: operand data, operand '
                      'units and the storage identity of the result.', 40)


def dims_of(e):
    return tuple(sorted(size(e, {n: 1.0 for n in TABLE})[1].items()))


DEXPR = ['m', 'km', 's', 'hr', 'jd2000', 'deg', 'rad', ('/', 'm', 's'), ('/', 'km', 'hr'), ('/', 's', 'm'), ('**', 'm', 2), ('*', 'm', 'km'),
         ('**', 's', -1), ('/', 1, 'hr'), ('/', 'deg', 's'), ('*', 'm', 's'), ('*', 'hr', 'km'), ('/', 'm', 'm'), ('/', 'm', 'km'), ('**', 'm', 0.5),
         ('/', 'm', ('**', 's', 2)), ('/', ('*', 'm', 'deg'), 's'), ('*', 'deg', ('/', 'm', 's')), ('/', ('*', 'm', 's'), 'km'), ('**', 'm', 3),
         ('**', ('/', 's', 'm'), -1), ('/', 'jd2000', 's'), ('*', ('/', 'm', 's'), ('/', 's', 'km')), ('*', ('/', 'deg', 's'), 'hr'), ('**', 'km', 0),
         ('**', 'km', -2), ('/', ('**', 'm', 2), 'km'), ('*', ('*', 'm', 's'), ('/', 'deg', 'km')), ('**', ('/', 'm', 's'), 2),
         ('*', ('**', 'm', 0.25), ('**', 'km', 0.25)), ('*', ('**', 'm', 0.5), ('**', 'km', -1)), ('/', ('**', 'deg', 1.5), 'rad'), ('**', ('*', 'm', 's'), 0.5),
         ('*', ('**', 's', 0.5), ('/', 'm', ('**', 'hr', 0.5))), ('/', ('**', 'm', 10), ('**', 'km', 8)), ('**', 'm', 12), ('**', 'm', 1.25), ('**', 'm', 1.2),
         ('**', 'm', 0.25), ('**', 'km', -0.25), ('**', 's', 0.125), ('**', 'hr', 0.12), ('**', 'm', 125), ('**', 'km', 124), ('*', ('**', 'deg', -0.25), 's')]


@guarded
def u04(ctx):
    k = K(ctx)
    S = Syms()
    x, y = S.f('x', -50, 50), S.f('y', -50, 50)
    ops = {'to': None, 'convert_to': None, 'add': 'b', 'sub': 'b', 'eq': 'c', 'ne': 'c', 'lt': 'c', 'le': 'c', 'gt': 'c', 'ge': 'c'}
    exprs = DEXPR if ctx.deep else DEXPR[:22] + DEXPR[-8:-2]
    for a in exprs:
        for b in exprs:
            same = dims_of(a) == dims_of(b)
            todo = ops if (ctx.deep or not same) else ['to', 'add', 'lt']

            for o in todo:
                def build(S, o=o, a=a, b=b):
                    qa = k.q(x, a)
                    if ops[o] is None:
                        ctx.meth(qa, o, k.unit(b))
                    elif ops[o] == 'b':
                        ctx.op(o, qa, k.q(y, b))
                    else:
                        ctx.cmp(o, qa, k.q(y, b))
                    return {}
                ctx.case('%s %s,%s' % (o, text(a), text(b)), build,
                         (lambda v: {}) if same else (lambda v: {'!raise': True, '!exc': ['ArithmeticError', 'ValueError', 'TypeError']}),
                         S=S, n=2, seeds=False)
    return ctx.finish('other', RULE + ' Every trace of an operation on quantities of different dimension must end in an exception; '
                      'of equal dimension, none may.', 500)


@guarded
def u05(ctx):
    k = K(ctx)
    tab = scales(ctx, k)
    S = Syms()
    x, y, x2, y2 = S.f('x', -50, 50, grid=0.25), S.f('y', -50, 50, grid=0.25, special=[0.0]), S.f('x2', -50, 50), S.f('y2', 0.5, 50)
    c = S.f('c', 0.5, 9)
    S.post = None
    pairs = [('m', 'm'), ('m', 'km'), ('inch', 'm'), ('hr', 'min'), ('s', 'dy'), ('deg', 'rad'), ('hourangle', 'arcsec'), ('jd2000', 'jd2000'),
             (('/', 'm', 's'), ('/', 'km', 'hr')), (('**', 'km', 2), ('*', 'm', 'cm')), (('*', 2.0, 'm'), 'cm')]
    NP = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.divide}
    CP = {'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal}

    def base(e):
        _, d = size(e, tab)
        r = None
        for dim, p in sorted(d.items()):
            t = ('**', BASE[dim], p) if p != 1 else BASE[dim]
            r = t if r is None else ('*', r, t)
        return r
    shapes = {'ss': (lambda: x, lambda: y), 'aa': (lambda: ctx.arr([x, x2]), lambda: ctx.arr([y, y2])), 'as': (lambda: ctx.arr([x, x2]), lambda: y2),
              'sa': (lambda: x2, lambda: ctx.arr([y2, y2]))}

    def scaled(f):
        """Operands of every magnitude, independent of each other or almost equal."""
        S = Syms()
        for nm in 'x', 'x2', 'y', 'y2':
            S.f(nm, -1e30, 1e30)
            S.f('b' + nm, -9, 9, special=[0.0])
        S.one_of('mag', [1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1e4, 1e9])
        S.one_of('gap', [0.0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3])

        def post(v):
            v = dict(v)
            for p, q in ('x', 'y'), ('x2', 'y2'):
                v[p] = v['b' + p] * v['mag']
                v[q] = np.where(v['gap'] == 0, v['b' + q] * v['mag'], v[p] * f * (1 + v['gap']))
            return v
        S.post = post
        return S

    def np_ops(v, sh):
        return {'ss': (v.x, v.y), 'aa': (np.stack([v.x, v.x2], -1), np.stack([v.y, v.y2], -1)),
                'as': (np.stack([v.x, v.x2], -1), v.y2[:, None]), 'sa': (v.x2[:, None], np.stack([v.y2, v.y2], -1))}[sh]
    for a, b in pairs:
        fa, fb = size(a, tab)[0], size(b, tab)[0]
        SC = scaled(fa / fb)
        for sh, (gx, gy) in shapes.items():
            for o in NP:
                def build(S, a=a, b=b, o=o, gx=gx, gy=gy):
                    r = ctx.op(o, k.q(gx(), a), k.q(gy(), b))
                    out = {}
                    if o in ('add', 'sub'):
                        ctx.put(out, 'v', k.to(r, base(a)))
                    elif o == 'mul':
                        ctx.put(out, 'v', k.to(r, base(('*', a, b))))
                    else:
                        out['dim'] = ctx.get(ctx.get(r, 'unit'), 'dimension')
                        ctx.put(out, 'v', ctx.get(r, 'data'))
                    return out

                def ref(v, o=o, sh=sh, fa=fa, fb=fb):
                    A, B = np_ops(v, sh)
                    o_ = {}
                    ctx.expect(o_, 'v', NP[o](A * fa, B * fb))
                    if o == 'truediv':
                        o_['dim'] = '1'
                        o_['!skip'] = v.y == 0
                    return o_
                ctx.case('%s %s,%s %s' % (o, text(a), text(b), sh), build, ref, S=S, n=40, rtol=1e-11, atol=1e-11)
            for o in CP:
                def build(S, a=a, b=b, o=o, gx=gx, gy=gy):
                    out = {}
                    ctx.put(out, 'v', ctx.cmp(o, k.q(gx(), a), k.q(gy(), b)))
                    return out

                def ref(v, o=o, sh=sh, fa=fa, fb=fb):
                    A, B = np_ops(v, sh)
                    o_ = {}
                    ctx.expect(o_, 'v', CP[o](A, B * (fb / fa)))
                    return o_
                exact = a == b
                ctx.case('%s %s,%s %s' % (o, text(a), text(b), sh), build, ref, S=S, n=60, rtol=0, atol=0,
                         edges='exact' if exact else 'ignore')
                ctx.case('%s %s,%s %s, every scale' % (o, text(a), text(b), sh), build, ref, S=SC, n=60, rtol=0, atol=0)
    # different dimensions: products and quotients
    for a, b in [('km', 'hr'), ('deg', 'min'), (('/', 'km', 's'), 'hr'), ('mi', ('/', 1, 'hr')), (('/', 'km', 'hr'), ('/', 'm', ('**', 's', 2)))]:
        fa, fb = size(a, tab)[0], size(b, tab)[0]
        for sh, (gx, gy) in shapes.items():
            for o in ('mul', 'truediv'):
                e = ('*' if o == 'mul' else '/', a, b)

                def build(S, a=a, b=b, o=o, gx=gx, gy=gy, e=e):
                    r = ctx.op(o, k.q(gx(), a), k.q(gy(), b))
                    out = {}
                    ctx.put(out, 'v', k.to(r, base(e)))
                    return out

                def ref(v, o=o, sh=sh, fa=fa, fb=fb):
                    A, B = np_ops(v, sh)
                    o_ = {'!skip': v.y == 0}
                    ctx.expect(o_, 'v', NP[o](A * fa, B * fb))
                    return o_
                ctx.case('%s %s,%s %s' % (o, text(a), text(b), sh), build, ref, S=S, n=40, rtol=1e-11, atol=1e-11)
    # scalars
    sc = {'q*c': ('mul', 0, lambda q, c: q * c), 'c*q': ('mul', 1, lambda q, c: q * c), 'q/c': ('truediv', 0, lambda q, c: q / c),
          'q+c': ('add', 0, lambda q, c: q + c), 'c+q': ('add', 1, lambda q, c: q + c), 'q-c': ('sub', 0, lambda q, c: q - c),
          'c-q': ('sub', 1, lambda q, c: c - q)}
    for a in ['m', 'km', 'hr', 'rad', ('/', 'km', 'hr')]:
        fa = size(a, tab)[0]
        for nm, (o, rev, f) in sc.items():
            for arr in (0, 1):
                def build(S, a=a, o=o, rev=rev, arr=arr):
                    q = k.q(ctx.arr([x, x2]) if arr else x, a)
                    r = ctx.op(o, c, q) if rev else ctx.op(o, q, c)
                    out = {}
                    ctx.put(out, 'v', k.to(r, a))
                    ctx.put(out, 'n', ctx.get(k_neg(r), 'data'))
                    return out

                def k_neg(r):
                    return ctx.I.call(ctx.get(r, '__neg__'), [], {})

                def ref(v, f=f, arr=arr):
                    X = np.stack([v.x, v.x2], -1) if arr else v.x
                    cc = v.c[:, None] if arr else v.c
                    o_ = {}
                    ctx.expect(o_, 'v', f(X, cc))
                    ctx.expect(o_, 'n', -f(X, cc))
                    return o_
                ctx.case('%s %s %s' % (nm, text(a), 'array' if arr else 'scalar'), build, ref, S=S, n=40, rtol=1e-12, atol=1e-12)

        def build(S, a=a):
            out = {}
            r = ctx.op('truediv', c, k.q(y2, a))
            ctx.put(out, 'v', k.to(r, ('**', base(a), -1)))
            r = ctx.op('truediv', c, k.q(ctx.arr([y2, c]), a))
            ctx.put(out, 'w', k.to(r, ('**', base(a), -1)))
            return out

        def ref(v, fa=fa):
            o_ = {}

            ctx.expect(o_, 'v', v.c / (v.y2 * fa))
            ctx.expect(o_, 'w', np.stack([v.c / (v.y2 * fa), 1 / fa + 0 * v.c], -1))
            return o_
        ctx.case('c/q %s' % text(a), build, ref, S=S, n=40, rtol=1e-11, atol=1e-13)
        # the numbers zero and one, as numbers on either side
        for n0 in (0, 0.0, 1, 1.0, -1):
            def build(S, a=a, n0=n0):
                q, inv = k.q(y2, a), ('**', base(a), -1)
                return {'n/q': k.to(ctx.op('truediv', n0, q), inv), 'n*q': k.to(ctx.op('mul', n0, q), base(a)), 'q*n': k.to(ctx.op('mul', q, n0), base(a)),
                        'n+q': k.to(ctx.op('add', n0, q), a), 'q+n': k.to(ctx.op('add', q, n0), a), 'n-q': k.to(ctx.op('sub', n0, q), a), 'q-n': k.to(ctx.op('sub', q, n0), a)}

            def ref(v, fa=fa, n0=n0):
                return {'n/q': n0 / (v.y2 * fa), 'n*q': n0 * v.y2 * fa, 'q*n': n0 * v.y2 * fa, 'n+q': n0 + v.y2, 'q+n': n0 + v.y2, 'n-q': n0 - v.y2, 'q-n': v.y2 - n0}
            ctx.case('%r and %s' % (n0, text(a)), build, ref, S=S, n=10, rtol=1e-11, atol=1e-13)
    # the reflected methods themselves, between quantities
    for a, b in [('m', 'km'), ('km', 'm'), ('hr', 's'), ('rad', 'deg'), ('km', 'hr'), (('/', 'km', 'hr'), ('/', 'm', 's'))]:
        fa, fb = size(a, tab)[0], size(b, tab)[0]
        same = dims_of(a) == dims_of(b)
        for o, f in (('__radd__', np.add), ('__rsub__', lambda p, q: q - p), ('__rmul__', np.multiply), ('__rtruediv__', lambda p, q: q / p)):
            if not same and o in ('__radd__', '__rsub__'):
                continue

            def build(S, a=a, b=b, o=o):
                r = ctx.meth(k.q(y2, a), o, k.q(x, b))
                e = {'__rmul__': ('*', a, b), '__rtruediv__': ('/', b, a)}.get(o, a)
                out = {}
                if o == '__rtruediv__' and dims_of(a) == dims_of(b):
                    out['dim'] = ctx.get(ctx.get(r, 'unit'), 'dimension')
                    ctx.put(out, 'v', ctx.get(r, 'data'))
                else:
                    ctx.put(out, 'v', k.to(r, base(e)))
                return out

            def ref(v, o=o, f=f, fa=fa, fb=fb, same=same):
                o_ = {}
                ctx.expect(o_, 'v', f(v.y2 * fa, v.x * fb))
                if o == '__rtruediv__' and same:
                    o_['dim'] = '1'
                return o_
            ctx.case('%s %s,%s' % (o, text(a), text(b)), build, ref, S=S, n=40, rtol=1e-11, atol=1e-11)
    return ctx.finish('other', RULE, 150)


def exprs_for_algebra(ctx):
    names = list(TABLE)
    out = []
    for a in names:
        for b in names:
            out += [('*', a, b), ('/', a, b)]
        for p in (-3, -2, -1, 0, 1, 2, 3, 0.5, -0.5, 1.5):
            out.append(('**', a, p))
        out += [('/', 1, a), ('*', 2.5, a), ('*', a, 4.0)]
    rng = np.random.default_rng(ctx.seed)

    def rnd(d):
        if d == 0 or rng.random() < 0.15:
            return names[rng.integers(len(names))]
        k = rng.integers(8)
        if k < 3:
            return ('*', rnd(d - 1), rnd(d - 1))
        if k < 6:
            return ('/', rnd(d - 1), rnd(d - 1))
        if k == 6:
            return ('**', rnd(d - 1), [-2, -1, 2, 3, 0.5, 0][rng.integers(6)])
        return ('*', float([2.0, 0.5, 10.0][rng.integers(3)]), rnd(d - 1))
    m = 1500 if ctx.deep else 350
    while m:
        e = rnd(4)
        if isinstance(e, tuple):
            out.append(e)
            m -= 1
    return out


def base_expr(d):
    r = None
    for dim, p in sorted(d.items()):
        t = ('**', BASE[dim], p) if p != 1 else BASE[dim]
        r = t if r is None else ('*', r, t)
    return r if r is not None else ('/', 'm', 'm')


@guarded
def u06(ctx):
    k = K(ctx)
    tab = scales(ctx, k)
    S = Syms()
    x = S.f('x', 1, 50)
    for e in exprs_for_algebra(ctx):
        f, d = size(e, tab)
        if f > 1e250 or f < 1e-250:
            continue

        def build(S, e=e, d=d):
            return {'v': k.to(k.q(x, e), base_expr(d)), 'w': k.to(k.q(x, base_expr(d)), e)}
        ctx.case(text(e), build, lambda v, f=f: {'v': v.x * f, 'w': v.x / f}, S=S, n=3, rtol=1e-9, atol=0, seeds=False)
    # a number over a unit is that number times the inverse, if it is a unit at all
    for c in (2.0, 3, 0.5, 0, -1.0):
        for e in ('m', 'km', 'deg', ('/', 'km', 'hr'), ('*', 2.0, 's'), ('**', 'm', 2)):
            f, d = size(e, tab)

            def build(S, c=c, e=e, d=d):
                r = ctx.op('truediv', c, k.unit(e))
                return {'v': k.to(ctx.call(k.Q, x, r), base_expr({n: -p for n, p in d.items()}))}
            ctx.case('%s over %s' % (c, text(e)), build, lambda v, f=f, c=c: {'v': v.x * c / f}, S=S, n=3, rtol=1e-9, atol=0, seeds=False,
                     rel=lambda v, G, p: True if '!raise' in G else None)
    return ctx.finish('other', RULE + ' Unit expressions: every product, quotient and power of named units, and nested expressions to depth 4; '
                      'the size of the result must be the same expression of the sizes.', 500)


@guarded
def u07(ctx):
    k = K(ctx)
    ex = list(DEXPR)
    for perm in itertools.permutations(['m', 's', 'deg', 'jd2000']):
        e = perm[0]
        for p in perm[1:]:
            e = ('*', e, p)
        ex.append(e)
    for perm in itertools.permutations(['*km', '/hr', '/rad', '*m']):
        e = 'm'
        for p in perm:
            e = (p[0], e, p[1:])
        ex.append(e)
    ex += [e for e in exprs_for_algebra(ctx) if len(ex) and any(isinstance(x, tuple) for x in e)][:400 if ctx.deep else 150]

    def build(S):
        out = {}
        for i, e in enumerate(ex):
            s = ctx.get(k.unit(e), 'dimension')
            s2 = ctx.get(k.q(1.0, e), 'dimension')
            out['%d' % i] = s
            out['q%d' % i] = s2
        return out

    def agg(outs):
        bad = []
        for o in outs:
            if o[0] != 'return':
                continue
            for i, e in enumerate(ex):
                if o[1]['%d' % i] != o[1]['q%d' % i]:
                    bad.append((text(e), 'Quantity.dimension differs from its unit dimension'))
                for j, f in enumerate(ex):
                    same = dims_of(e) == dims_of(f)
                    eq = o[1]['%d' % i] == o[1]['%d' % j]
                    ctx.obl += 1
                    if same != eq and j > i:
                        bad.append(('%s,%s' % (text(e), text(f)), 'dimensions %r and %r compare %s' % (o[1]['%d' % i], o[1]['%d' % j], 'equal' if eq else 'different')))
        return bad
    ctx.case('dimension strings', build, lambda v: {}, S=Syms(), n=1, agg=agg)
    return ctx.finish('other', RULE + ' Dimension strings of all pairs of unit expressions: equal exactly when the exponent vectors are equal.', 1)


def names_in(e):
    """(numeric factor, {name: power}) of a unit expression."""
    if isinstance(e, str):
        return 1.0, {e: 1}
    if isinstance(e, (int, float)):
        return float(e), {}
    op, a, b = e
    fa, da = names_in(a)
    if op == '**':
        return fa ** b, {n: p * b for n, p in da.items() if p * b}
    fb, db = names_in(b)
    s = 1 if op == '*' else -1
    d = dict(da)
    for n, p in db.items():
        d[n] = d.get(n, 0) + s * p
        if not d[n]:
            del d[n]
    return fa * fb ** s, d


def read_unit(s):
    """(numeric factor, {name: power}) a unit string denotes, None when it denotes none."""
    parts = s.split('/')
    if len(parts) > 2:
        return None
    f, d = 1.0, {}
    for i, part in enumerate(parts):
        toks = part.split()
        if not toks:
            return None
        for t in toks:
            m = re.match(r'(jd2000|[a-z]+)(?:\^|\*\*)?(\d*\.?\d*)$', t)
            if m and m.group(1) in TABLE and m.group(1) not in d:
                p = float(m.group(2)) if m.group(2) else 1.0
                d[m.group(1)] = p if i == 0 else -p
                continue
            try:
                f *= float(t) if i == 0 else 1 / float(t)
            except (ValueError, ZeroDivisionError):
                return None
    return f, d


@guarded
def u08(ctx):
    """Strings of units and quantities."""
    k = K(ctx)
    S = Syms()
    ex = list(TABLE) + [x for p in COMPOUND for x in p] + [('*', f, a) for a in ('m', 'deg', ('/', 'km', 's'), ('**', 's', -1)) for f in (1.0000001, 123456.789, 1e-12, 0.1, 7, 1 / 3)]
    ex += [('/', ('*', a, b), ('*', b, c)) for a, b, c in itertools.permutations(('m', 's', 'jd2000', 'deg', 'mi', 'min'), 3)]
    ex += [('**', a, p) for a in TABLE for p in (1, 2, 10, 12, -1, -10, 0.25, -2.5)]
    ex += exprs_for_algebra(ctx)
    seen = set()
    for e in ex:
        if text(e) in seen or isinstance(e, float):
            continue
        seen.add(text(e))
        f, d = names_in(e)
        if not 1e-250 < f < 1e250:
            continue

        def build(S, e=e):
            un = k.unit(e)
            s = ctx.str(un)
            out = {'unit string': s}
            for nm, x in (('number', 2.5), ('integer', 3), ('negative', -0.125)):
                out[nm] = ctx.str(k.q(x, un))
            return out

        def rel(v, G, p, f=f, d=d):
            if '!raise' in G:
                return None
            out = {}
            s = G['unit string'][0]
            r = read_unit(s)
            out['%r denotes the unit' % s] = np.full(v['_n'], r is not None and abs(r[0] - f) <= 1e-12 * abs(f) and r[1] == d)
            for nm, x in (('number', 2.5), ('integer', 3), ('negative', -0.125)):
                t = G[nm][0]
                out['%r is the %s and the unit' % (t, nm)] = np.full(v['_n'], t == '%s %s' % (x, s))
            return out
        ctx.case(text(e), build, lambda v: {}, rel=rel, S=S, n=1, seeds=False)
    return ctx.finish('other', RULE + ' Strings are read back: the factor and the exponent of every name they show must be those of the expression.', 300)
