"""Results depend on the arguments only, objects on what was done with them only."""
import re
import numpy as np
from sa.harness import Syms, same, ev, V, DAY_TOL
from sa import terms as T
from sa.interp import RaiseEx
from sa.values import Arr, Ref
from .units import K, guarded, RULE, TABLE, COMPOUND, base_expr, dims_of, text
from .astro import AQ, NP
from .time import SOLAR, SIDE
from .coords import location, convert, frame, ATTRS, FR, unit_of
from . import encounter as E
from .files import text_of

NONE = '<absent>'
# an ephemeris at dates that are not those of the case: some vector per segment, component and date
def code(s):
    return float(ord(str(np.asarray(s).reshape(-1)[0])))


def ANY(b, c, x):
    return 1e8 * np.sin(1e-3 * np.asarray(x, float) + code(b) + 7 * code(c))


UFS = {'eph': ANY}
J3 = (2455368.0, 2455368.5, 2455369.0)


def dump(ctx, k, out, label, x):
    """Everything a user can read from a value."""
    I = ctx.I
    c = ctx.cls(x)
    if c == 'Quantity':
        out[label + ' unit'] = ctx.str(ctx.get(x, 'unit'))
        ctx.put(out, label, ctx.get(x, 'data'))
    elif c in ATTRS:
        out[label + ' class'] = c
        for a in ('time',) + ATTRS[c]:
            dump(ctx, k, out, '%s %s' % (label, a), ctx.get(x, a))
        if c in ('AzEl', 'Attitude'):
            dump(ctx, k, out, label + ' location', ctx.get(x, 'location'))
    elif c == 'GroundLocation':
        for a in ('latitude', 'longitude', 'height', 'radius', 'itrs_x', 'itrs_y', 'itrs_z'):
            dump(ctx, k, out, '%s %s' % (label, a), ctx.get(x, a))
    elif c == 'WindowCollection' or c in ('list', 'tuple'):
        xs = list(I.libs.iterate(I, x))
        out[label + ' length'] = len(xs)
        for i, y in enumerate(xs):
            dump(ctx, k, out, '%s %d' % (label, i), y)
    elif c == 'VisibleTimeWindow':
        for a in ('rise_time', 'set_time', 'attitude'):
            dump(ctx, k, out, '%s %s' % (label, a), ctx.get(x, a))
    elif c == 'Time':
        dump(ctx, k, out, label, ctx.get(x, 'julian'))
    else:
        sh, xs = ctx.vals(x)
        out[label + ' shape'] = str(sh)
        for i, y in enumerate(xs):
            l = '%s[%d]' % (label, i) if sh else label
            f = I.cell(y).fields if I.is_obj(y) else None
            if f is not None and 'days' in f:
                for q in sorted(f):
                    out['%s %s' % (l, q)] = f[q]
            else:
                out[l] = y if f is None else ctx.cls(y)


def quietly(f):
    """Earlier calls may raise: what they do is not the subject."""
    try:
        return f()
    except RaiseEx:
        return None


class Alone:
    """Summary of a computation on its own: for every valuation the value of every output, or the exception."""

    def __init__(self, ctx, S, build):
        self.ctx, self.S = ctx, S
        self.paths = ctx.I.explore(lambda: build(S), 3000)

    def __call__(self, v):
        n = v['_n']
        terms = [g for p in self.paths for g in p.guards] + [x for p in self.paths if p.kind == 'return' for x in p.value.values() if isinstance(x, T.Term)]
        env = self.ctx._env(self.S, {q: v[q] for q in v if q in self.S.d or q.startswith('random')}, n, UFS, terms)
        out, exc = {}, np.full(n, '', dtype=object)
        done = np.zeros(n, bool)
        for p in self.paths:
            m = ~done
            for g in p.guards:
                m = m & np.asarray(ev(g, env)).astype(bool)
            if not m.any():
                continue
            done |= m
            if p.kind == 'raise':
                exc[m] = p.heap[p.value.id].cls.name
            for l, x in (p.value.items() if p.kind == 'return' else ()):
                if l not in out:
                    out[l] = np.full(n, NONE, dtype=object)
                y = np.asarray(ev(x, env)).astype(object)
                out[l][m] = y[m]
        return out, exc, done


def compare(ctx, name, build, alone, S, where=None, n=24, tol=1e-9, **kw):
    """build() after other calls gives what alone() gives."""
    solo = {}

    def rel(v, G, p):
        if not solo or solo['v'] is not v:
            solo.update(v=v, r=(alone() if not isinstance(alone, Alone) else alone)(v))
        want, exc, done = solo['r']
        N = v['_n']
        if '!raise' in G:
            return (exc == G['!raise']) | ~done
        out = {'no exception': (exc == '') | ~done}
        for l in sorted(set(want) | set(G)):
            x, y = G.get(l, np.full(N, NONE, dtype=object)), want.get(l, np.full(N, NONE, dtype=object))
            t = (0.0, DAY_TOL) if re.search(r'(time|rise|set|start|deadline)(?![a-z])', l) else (tol, tol)
            out[l] = same(np.asarray(x), y, *t) | ~done
        return out
    ctx.case(name, build, lambda v: {}, rel=rel, S=S, n=n, where=where, seeds=False, ufs=UFS, **kw)


def history(ctx, k, name, S, make, call, variants, where=None, shared=None, n=24, **kw):
    """call(make(A)): alone; after the same call with every variant; and read only after those calls."""
    def res(out, r):
        dump(ctx, k, out, 'result', r)
        return out
    memo = []

    def alone():
        if not memo:
            memo.append(Alone(ctx, S, lambda S: res({}, call(make(None)))))
        return memo[0]

    def before(S):
        for w in variants:
            quietly(lambda: res({}, call(make(w))))
        return res({}, call(make(None)))

    def after(S):
        r = call(make(None))
        for w in variants:
            quietly(lambda: res({}, call(make(w))))
        return res({}, r)
    compare(ctx, name + ' after other arguments', before, alone, S, where, n, **kw)
    compare(ctx, name + ' read after other calls', after, alone, S, where, n, **kw)


JA = (2451000.25, 2455000.75)


def dates(S):
    a, b = S.f('j0', 2450000.0, 2460000.0), S.f('j1', 2450000.0, 2460000.0)
    # others of the same length, with the same first or last date, of another length, in another order, and the same dates
    # and of dates close by (the same day, the same second)
    return (a, b), [JA, (a, JA[1]), (JA[0], b), (a,), (b,), (b, a), (a, JA[0], b), (a, b, JA[0])] + near(a, b)


def near(a, b):
    return [tuple(T.add(x, d) for x in (a, b)) for d in (0.02, 4e-6)]


METHODS = list(SOLAR) + list(SIDE) + ['ut1', 'gmst', 'gast', 'datetime']
FREE = ('ut1', 'gmst', 'gast', 'datetime')
AQF = ('earth_rotation_angle', 'nutation_angles', 'nutation_components', 'conventional_precession_angles', 'mean_obliquity', 'apparent_obliquity', 'equation_of_time',
       'equation_of_equinoxes', 'sun_right_ascension', 'from_julian', 'day_of_year')
FORMS = ('array', 'scalar')


def astro(ctx, k):
    W = 'celest/coordinates/astronomical_quantities.py'
    for nm in [AQ + f for f in AQF] + [NP + f for f in ('precession_matrix', 'nutation_matrix')]:
        S = Syms()
        A, B = dates(S)
        q = lambda js: k.q(ctx.arr(list(js)), 'jd2000')
        f = nm.rsplit('.', 1)[1]
        history(ctx, k, f, S, lambda w: q(w or A), lambda j: ctx.call(ctx.name(nm), j), B[:-2] if f in ('from_julian', 'day_of_year') else B, where=W)
        if nm.startswith(AQ) and f not in ('day_of_year',):
            history(ctx, k, f + ' of one date', S, lambda w: k.q(A[0] if w is None else w, 'jd2000'), lambda j: ctx.call(ctx.name(nm), j), [JA[0], A[1], T.add(A[0], 0.02), T.add(A[0], 4e-6)], where=W)
    S = Syms()
    la = S.f('la', -90, 90)
    history(ctx, k, 'radius_of_curvature_in_prime_vertical', S, lambda w: k.q(*(w or (la, 'deg'))), lambda q: ctx.call(ctx.name(AQ + 'radius_of_curvature_in_prime_vertical'), q),
            [(la, 'rad'), (10.0, 'deg'), (T.neg(la), 'deg')], where=W)

    # every function after every other one, for the same dates
    for nm in AQF:
        S = Syms()
        A, _ = dates(S)
        q = lambda: k.q(ctx.arr(list(A)), 'jd2000')
        one = lambda f, j: ctx.call(ctx.name(AQ + f), j)

        def after(S):
            j = q()
            for f in AQF:
                if f != nm:
                    quietly(lambda: one(f, j))
            out = {}
            dump(ctx, k, out, 'result', one(nm, j))
            return out

        def alone(S=S, nm=nm, q=q):
            def b(S):
                out = {}
                dump(ctx, k, out, 'result', one(nm, q()))
                return out
            return Alone(ctx, S, b)
        compare(ctx, nm + ' after the other functions', after, alone, S, W)


def times(ctx, k):
    W = 'celest/time.py'
    TM = ctx.name('celest.time.Time')

    def method(t, m, lon):
        return ctx.meth(t, m, *(() if m in FREE else (ctx.arr(list(lon)) if isinstance(lon, tuple) else lon,)))
    for m in METHODS:
        S = Syms()
        A, B = dates(S)
        la, lb = S.f('l0', -180, 180), S.f('l1', -180, 180)
        lons = {2: (la, lb), 1: (la,), 3: (lb, 12.5, la)}
        make = lambda w: (ctx.call(TM, ctx.arr(list(w or A))), lons[len(w or A)])
        history(ctx, k, 'Time.' + m, S, make, lambda a: method(a[0], m, a[1]), B, where=W)
        # on one object, with other longitudes and after every other method

        def same(S, m=m, A=A, la=la, lb=lb, last=True):
            t = ctx.call(TM, ctx.arr(list(A)))
            for o in METHODS:
                for lon in ((12.5, 50.0), (la, 50.0), (lb, la)) + (((la, lb),) if o != m else ()):
                    quietly(lambda: method(t, o, lon))
            out = {}
            dump(ctx, k, out, 'result', method(t, m, (la, lb)))
            out['length'] = ctx.I.libs.len_(ctx.I, t)
            dump(ctx, k, out, 'julian', ctx.get(t, 'julian'))
            return out

        def alone(S=S, m=m, A=A, la=la, lb=lb):
            def b(S):
                t = ctx.call(TM, ctx.arr(list(A)))
                out = {}
                dump(ctx, k, out, 'result', method(t, m, (la, lb)))
                out['length'] = ctx.I.libs.len_(ctx.I, t)
                dump(ctx, k, out, 'julian', ctx.get(t, 'julian'))
                return out
            return Alone(ctx, S, b)
        compare(ctx, 'Time.%s after the other methods' % m, same, alone, S, W)


def site_syms(S):
    return S.f('la', -80, 80), S.f('lo', -179, 179), S.f('h', 0, 3)


def positions(S, src):
    if src == 'WGS84':
        return [[S.f('%s%d' % (c, i), *r) for i in (0, 1)] for c, r in (('p', (-80, 80)), ('q', (-179, 179)), ('r', (0, 5000)))]
    return [[S.f('%s%d' % (c, i), 3000, 9000) for i in (0, 1)] for c in 'pqr']


def close(q):
    """Positions so near that they share a rounded value."""
    return [[T.add(x, 1e-3) for x in c] for c in q]


OTHER = {'WGS84': [[10.0, 20.0], [30.0, 40.0], [100.0, 200.0]], 'GCRS': [[4000.0, 5000.0], [6000.0, 5500.0], [3500.0, 4500.0]]}
OTHER['ITRS'] = OTHER['GCRS']


def frames(ctx, k):
    W = 'celest/coordinates/transforms.py'
    for src in ('GCRS', 'ITRS', 'WGS84'):
        un = ('deg', 'km') if src == 'WGS84' else ('km',)
        for dst in ('GCRS', 'ITRS', 'WGS84', 'AzEl'):
            if src == dst:
                continue
            S = Syms()
            (a, b), _ = dates(S)
            q = positions(S, src)
            la, lo, h = site_syms(S)
            o = OTHER[src]
            sites = [(la, lo, h), (43.0, -79.0, 0.1), (la, -79.0, h), (la, lo, 2.5), (43.0, lo, h), tuple(T.add(x, 2e-6) for x in (la, lo, h))]
            # dates, components, location
            V0 = ((a, b), q, 0)
            vs = [(JA, q, 0), ((a, b), o, 0), ((a, JA[1]), q, 0), ((a, b), [q[0], o[1], q[2]], 0), ((a,), [c[:1] for c in q], 0), ((a, b), [q[0], q[1], o[2]], 0)] + [(x, q, 0) for x in near(a, b)] + [((a, b), close(q), 0)]
            if dst == 'AzEl':
                vs += [((a, b), q, i) for i in range(1, 6)]

            def make(w, V0=V0):
                j, c, s = w or V0
                return frame(ctx, k, src, j, c, *un), (location(ctx, k, *sites[s]) if dst == 'AzEl' else None)
            history(ctx, k, '%s->%s' % (src, dst), S, make, lambda x: convert(ctx, x[0], dst, x[1]), vs, where=W)

            # the same position, to the other frames and for other locations first
            def same(S, make=make, first=True):
                p, l = make(None)
                for d in ('GCRS', 'ITRS', 'WGS84', 'AzEl') if first else ():
                    for s in sites[1:] if d == 'AzEl' else sites[1:2]:
                        quietly(lambda: convert(ctx, p, d, location(ctx, k, *s)))
                out = {}
                dump(ctx, k, out, 'result', convert(ctx, p, dst, l))
                dump(ctx, k, out, 'position', p)
                return out
            compare(ctx, '%s->%s after the other conversions' % (src, dst), same, lambda S=S, same=same: Alone(ctx, S, lambda S: same(S, first=False)), S, W)

            # one Coordinate for several conversions
            def coord(S, make=make, first=True):
                p, l = make(None)
                co = ctx.call(ctx.name('celest.coordinates.coordinate.Coordinate'), p)
                to = lambda d, l: ctx.meth(co, 'convert_to', ctx.name(FR + d.lower() + '.' + d), *(() if l is None else (l,)))
                for d in ('GCRS', 'ITRS', 'WGS84', 'AzEl') if first else ():
                    for s in sites[1:] if d == 'AzEl' else sites[1:2]:
                        quietly(lambda: to(d, location(ctx, k, *s)))
                out = {}
                dump(ctx, k, out, 'result', to(dst, l))
                return out
            compare(ctx, '%s->%s by one Coordinate after others' % (src, dst), coord, lambda S=S, coord=coord: Alone(ctx, S, lambda S: coord(S, first=False)), S, W)
    # locations
    S = Syms()
    la, lo, h = site_syms(S)
    history(ctx, k, 'GroundLocation', S, lambda w: location(ctx, k, *(w or (la, lo, h))), lambda l: l, [(43.0, -79.0, 0.1), (la, -79.0, h), (la, lo, 2.5), (43.0, lo, h), (43.0, -79.0, h), tuple(T.add(x, 2e-6) for x in (la, lo, h))],
            where='celest/coordinates/ground_location.py')


def sat_syms(S):
    return positions(S, 'ITRS'), [[S.f('%s%d' % (c, i), -8, 8) for i in (0, 1)] for c in 'uvw']


def satellites(ctx, k):
    W = 'celest/satellite.py'
    SAT = ctx.name('celest.satellite.Satellite')
    jobs = ('altitude', 'distance', 'look_angle', 'attitude')

    def run(s, m, l):
        return ctx.meth(s, m) if m == 'altitude' else ctx.meth(s, m, l)
    for fr in ('ITRS', 'GCRS'):
        for m in jobs:
            S = Syms()
            (a, b), _ = dates(S)
            q, v = sat_syms(S)
            la, lo, h = site_syms(S)
            o, ov = OTHER['ITRS'], [[1.0, 2.0], [-3.0, 4.0], [5.0, 6.0]]
            sites = [(la, lo, h), (43.0, -79.0, 0.1), (la, -79.0, h), (la, lo, 2.5), (43.0, lo, h), tuple(T.add(x, 2e-6) for x in (la, lo, h))]
            V0 = ((a, b), q, v, 0)
            vs = [(JA, q, v, 0), ((a, b), o, v, 0), ((a, b), q, ov, 0), ((a, JA[1]), q, v, 0), ((a, b), [q[0], o[1], q[2]], v, 0), ((a,), [c[:1] for c in q], [c[:1] for c in v], 0)] + ([(near(a, b)[0], q, v, 0)] if m == 'distance' else []) + [((a, b), q, v, i) for i in range(1, 6 if fr == 'ITRS' else 5)]

            def make(w, V0=V0):
                j, c, cv, s = w or V0
                return ctx.call(SAT, frame(ctx, k, fr, j, c, 'km'), frame(ctx, k, fr, j, cv, ('/', 'km', 's'))), location(ctx, k, *sites[s])
            history(ctx, k, '%s for a %s position' % (m, fr), S, make, lambda x: run(x[0], m, x[1]), vs, where=W)

            def same(S, make=make, first=True):
                s, l = make(None)
                for d in jobs if first else ():
                    for p in sites[1:] + (sites[:1] if d != m else []):
                        quietly(lambda: run(s, d, location(ctx, k, *p)))
                out = {}
                dump(ctx, k, out, 'result', run(s, m, l))
                return out
            compare(ctx, '%s for a %s position after the other methods' % (m, fr), same, lambda S=S, same=same: Alone(ctx, S, lambda S: same(S, first=False)), S, W)


@guarded
def h02(ctx):
    k = K(ctx)
    W = 'celest/encounter/window_generator.py'
    G = ctx.name(E.GEN + 'generate_vtws')
    for light in ('ANYTIME', 'DAYTIME', 'NIGHTTIME'):
        for n in (1, 2, 3):
            if n == 3 and light == 'ANYTIME':
                continue
            S = Syms()
            dates = None
            j = E.sky(S, n, True)
            la, lo, h, th = [S.d[x].term for x in ('la', 'lo', 'h', 'th')]
            fixed = n > 1 and light != 'ANYTIME'
            me = (43.0, -79.0, 0.1) if fixed else (la, lo, h)
            if fixed:
                th = 10.0
            # site, threshold, lighting, satellite
            V = {'another site': ((-43.0, 100.0, 0.0), th, light, 0), 'another threshold': (me, 75.0, light, 0), 'another satellite': ((-43.0, 100.0, 0.0), 10.0, light, 1)}
            if n == 3:
                # only the Sun at the date in the middle is unknown
                dates = j = list(J3)
                V = {'another satellite of the same first and last date': V['another satellite']}
            elif n == 1 or light == 'ANYTIME' or ctx.deep:
                V.update({'day': (me, th, 'DAYTIME', 0), 'night': (me, th, 'NIGHTTIME', 0), 'any time': (me, th, 'ANYTIME', 0), 'a site of the same latitude': ((la, 100.0, h), th, light, 0)})
                if light == 'ANYTIME' or ctx.deep:
                    V.update({'a site of the same longitude': ((-43.0, lo, 0.1), th, light, 0), 'another height': ((la, lo, 2.5), th, light, 0)})
            elif not ctx.deep:
                V = {'another satellite': V['another satellite']}

            def run(w, sats, me=me, th=th, light=light):
                p, t, l, s = w or (me, th, light, 0)
                return ctx.call(G, sats[s], location(ctx, k, *p), t, ctx.get(ctx.name(E.GEN + 'Lighting'), l))
            for what, w in V.items():
                if w[:1] + w[2:] == (me, light, 0) and w[1] is th:
                    continue

                def build(S, w=w, run=run, j=j, n=n, fixed=fixed, late=False, dates=dates):
                    E.ephemeris(ctx, S, n, dates, ANY)
                    # a satellite above the site at all dates, or anywhere
                    sats = [ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', j, [x[:n] for x in ([980.0, 1000.0, 1020.0], [-5040.0, -5000.0, -4960.0], [4750.0, 4800.0, 4850.0])], 'km'),
                                     frame(ctx, k, 'ITRS', j, [x[:n] for x in ([1.0, 2.0, 1.5], [3.0, 2.0, 1.0], [1.0, 0.5, 0.7])], ('/', 'km', 's')))
                            if fixed else E.satellite(ctx, k, S, j, n)[1]]
                    # the other satellite has the first date in common
                    o = [j[0], j[1] + 0.25 if n == 3 else JA[1], j[-1]][:n]
                    sats.append(ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', o, [x[:n] for x in ([7000.0, 6000.0, 6500.0], [100.0, 3000.0, 500.0], [200.0, 1000.0, 3000.0])], 'km'),
                                         frame(ctx, k, 'ITRS', o, [x[:n] for x in ([1.0, 2.0, 3.0], [3.0, 2.0, 1.5], [1.0, 0.5, 0.25])], ('/', 'km', 's'))))
                    if w and not late:
                        quietly(lambda: run(w, sats))
                    out = {}
                    r = run(None, sats)
                    if w and late:
                        quietly(lambda: run(w, sats))
                    dump(ctx, k, out, 'windows', r)
                    return out
                alone = lambda S=S, build=build: Alone(ctx, S, lambda S: build(S, w=None))
                compare(ctx, '%s windows (%d samples) after those for %s' % (light.lower(), n, what), build, alone, S, W, n=40, budget=300)
                if n == 1 and (what == 'another satellite' or light == 'ANYTIME') or ctx.deep:
                    compare(ctx, '%s windows read after those for %s' % (light.lower(), what), lambda S, build=build: build(S, late=True), alone, S, W, n=40, budget=300)
    ctx.I.hooks.pop('spk.compute', None)
    return ctx.finish('other', RULE + ' Reference: the summary of the same call explored on its own. The ephemeris is an uninterpreted vector per segment and date.', 12)


def units(ctx, k):
    W = 'celest/units/quantity.py'
    S = Syms()
    x, y = S.f('x', -50, 50), S.f('y', -50, 50)
    ex = list(TABLE) + [e for p in COMPOUND for e in p]

    def facts(out, i, e):
        un = k.unit(e)
        q = k.q(x, un)
        out['%d unit' % i], out['%d dimension' % i] = ctx.str(un), ctx.get(un, 'dimension')
        out['%d base' % i] = k.to(q, base_expr(dict(dims_of(e))))
        out['%d double' % i] = ctx.get(ctx.op('add', q, q), 'data')
        for j, (o, b) in enumerate((('mul', 's'), ('truediv', 'km'), ('mul', e))):
            dump(ctx, k, out, '%d %d' % (i, j), ctx.op(o, q, k.q(y, b)))
        return out
    ex = [e for e in ex if not isinstance(e, float)]

    def after(S):
        for i in reversed(range(len(ex))):
            facts({}, i, ex[i])
        out = {}
        for i, e in enumerate(ex):
            facts(out, i, e)
        return out

    def alone(v):
        out, exc, done = {}, None, None
        for i, e in enumerate(ex):
            o, exc, done = Alone(ctx, S, lambda S: facts({}, i, e))(v)
            out.update(o)
        return out, exc, done
    memo = []
    compare(ctx, 'units and quantities after all others', after, lambda: alone, S, W, n=12)
    # one quantity, converted to several units, in every order
    for a, us in (('km', ('m', 'mi', 'ft', 'cm')), ('hr', ('s', 'min', 'dy')), ('deg', ('rad', 'arcsec', 'hourangle')), (('/', 'km', 's'), (('/', 'm', 's'), ('/', 'mi', 'hr')))):
        for tgt in us:
            for arr in (0, 1):
                def one(S, first=True):
                    q = k.q(ctx.arr([x, y]) if arr else x, a)
                    for w in us if first else ():
                        if w != tgt:
                            k.to(q, w)
                            ctx.meth(q, 'convert_to', k.unit(w))
                    out = {}
                    dump(ctx, k, out, 'result', ctx.meth(q, 'convert_to', k.unit(tgt)))
                    dump(ctx, k, out, 'quantity', q)
                    return out
                compare(ctx, '%s to %s after other units%s' % (text(a), text(tgt), ', array' if arr else ''), one, lambda one=one: Alone(ctx, S, lambda S: one(S, first=False)), S, W, n=12)


@guarded
def h01(ctx):
    """Results depend only on the arguments."""
    k = K(ctx)
    for part in (frames, satellites, times, astro, units):
        part(ctx, k)
    return ctx.finish('other', RULE + ' Reference: the summary of the same call explored on its own, from the initial state of the program.', 60)


def apart(ctx, k, name, S, make, use, read, uses, where, target=0, n=24, **kw):
    """An object that is made, used and read among others of its kind shows what it shows on its own."""
    def among(S):
        # others are made and used before it is made, between its making and its use, and after its use
        p = make()
        for u in uses:
            if u != uses[target]:
                quietly(lambda: use(p, u))
        q, o, r = make(), make(), make()
        for u in uses:
            quietly(lambda: use(q, u))
        use(o, uses[target])
        for u in reversed(uses):
            quietly(lambda: use(r, u))
        out = {}
        read(out, o)
        return out

    def alone(S):
        o = make()
        use(o, uses[target])
        out = {}
        read(out, o)
        return out

    def unused(S):
        p = make()
        for u in uses:
            quietly(lambda: use(p, u))
        out = {}
        read(out, make())
        return out

    def fresh(S):
        out = {}
        read(out, make())
        return out
    compare(ctx, name + ' among others', among, lambda: Alone(ctx, S, alone), S, where, n, **kw)
    compare(ctx, name + ' unused', unused, lambda: Alone(ctx, S, fresh), S, where, n, **kw)


@guarded
def h03(ctx):
    """Objects share no state."""
    from .schedule import RH, HAN, Plan
    k = K(ctx)
    I = ctx.I
    # request handlers
    RHC, VT, OW, WC = ctx.name(RH + 'RequestHandler'), ctx.name(HAN + 'VisibleTimeWindow'), ctx.name(HAN + 'ObservationWindow'), ctx.name(HAN + 'WindowCollection')
    IX = ctx.name(RH + 'RequestIndices')
    S = Syms()
    t = [S.f('t%d' % i, 0, 9) for i in range(6)]

    def handler_use(h, u):
        lo, n, sch = u
        for i in range(n):
            ws = [ctx.call(VT, T.add(t[lo + i], x), T.add(t[lo + i], x + 1.0), None) for x in (0.0, 3.0)]
            ctx.meth(h, 'add_request', 'site %d' % (lo + i), k.q(20.0, 'jd2000'), k.q(60.0 * (lo + 1), 's'), lo + i, 1, None, ctx.lst(ws))
        for i, w in sch:
            ctx.meth(h, 'schedule_request', i, w, k.q(t[lo], 'jd2000'), k.q(60.0, 's'))
        if u[2] and lo:
            ctx.meth(h, 'unschedule_request', 0)
            ctx.meth(h, 'sort_by_decreasing_priority')

    def handler_read(out, h):
        rs = list(I.libs.iterate(I, h))
        out['requests'], out['listed'] = I.libs.len_(I, h), len(rs)
        out['number'], out['scheduled'] = ctx.get(h, 'number_of_requests'), ctx.get(h, 'number_of_scheduled_requests')
        for i, r in enumerate(rs):
            for f in ('is_scheduled', 'vtw_index', 'scheduled_start_time', 'scheduled_duration', 'location', 'deadline', 'duration', 'priority', 'quality', 'look_angle'):
                dump(ctx, k, out, '%d %s' % (i, f), I.getitem(r, ctx.get(IX, f)))
            ws = list(I.libs.iterate(I, I.getitem(r, ctx.get(IX, 'vtw_list'))))
            out['%d windows' % i] = len(ws)
            for q, w in enumerate(ws):
                dump(ctx, k, out, '%d rise %d' % (i, q), ctx.get(w, 'rise_time'))
    uses = [(0, 2, [(0, 1)]), (2, 3, [(0, 0), (2, 1)]), (5, 1, [(0, 0)]), (1, 0, [])]
    for tgt in range(4):
        apart(ctx, k, 'request handler %d' % tgt, S, lambda: ctx.call(RHC), handler_use, handler_read, uses, 'celest/schedule/request_handler.py', tgt)
    # window collections
    def coll_use(c, u):
        for i, x in enumerate(u):
            ctx.meth(c, 'add_window', ctx.call(VT, t[i], T.add(t[i], 1.0), None) if x == 'v' else ctx.call(OW, k.q(t[i], 'jd2000'), k.q(30.0, 's'), None, None))

    def coll_read(out, c):
        ws = list(I.libs.iterate(I, c))
        out['length'], out['listed'] = I.libs.len_(I, c), len(ws)
        for i, w in enumerate(ws):
            out['%d kind' % i] = ctx.cls(w)
            dump(ctx, k, out, '%d' % i, ctx.get(w, 'rise_time' if ctx.cls(w) == 'VisibleTimeWindow' else 'start_time'))
    for tgt, nm in enumerate(('visible', 'observation', 'longer', 'empty')):
        apart(ctx, k, '%s window collection' % nm, S, lambda: ctx.call(WC), coll_use, coll_read, ['vv', 'oo', 'vvv', ''], 'celest/encounter/window_handling.py', tgt)
    # writers
    W = ctx.name('celest.file_save.TextFileWriter')

    def writer_use(w, u):
        for q in u:
            kw = {}
            if 's' in q:
                kw['subheading'] = 'Sub ' + q
            if 'p' in q:
                kw['parameters'] = ctx.lst([ctx.lst(['A', q])])
            if 'd' in q:
                kw['data'] = ctx.lst([ctx.lst(['col ' + q, k.q(ctx.arr(t[:2]), 'km')])])
            ctx.meth(w, 'add_layer', **kw)
        ctx.meth(w, 'save')

    def writer_read(out, w):
        n = len(I.events)
        ctx.meth(w, 'save')
        out['text'] = T.cat(*[''] + [e[2] for e in I.events[n:] if e[0] == 'write'])
        out['name'] = ' '.join(str(e[2]) for e in I.events[n:] if e[0] == 'open')
    for tgt in range(4):
        apart(ctx, k, 'text file writer %d' % tgt, S, lambda: ctx.call(W, 'out', 'Header'), writer_use, writer_read, [['sd'], ['p', 'spd'], [], ['d', 's', 'pd']], 'celest/file_save.py', tgt)
    S = Syms()
    t = [S.f('t%d' % i, -9, 9) for i in range(6)]

    def named(S, first=True):
        a, b = ctx.call(W, 'a', 'Header a'), ctx.call(W, 'b.txt') if first else None
        if first:
            writer_use(b, ['spd'])
        out = {}
        writer_read(out, a)
        return out
    compare(ctx, 'text file writer of another name', named, lambda: Alone(ctx, S, lambda S: named(S, False)), S, 'celest/file_save.py')
    # schedulers: each plans its own requests
    SC = 'celest/schedule/scheduler.py'
    for its in (0, 1):
        S = Syms()
        P = Plan(ctx, k, S, (1,), 1, prio=(2,), windows=[(0.0, 8.0)])
        S2 = Syms()
        P2 = Plan(ctx, k, S2, (1, 1), 1, prio=(2, 9), windows=[(0.0, 8.0), (10.0, 18.0)])
        for r in P2.reqs:
            r.duration = 43200.0
        P2.t, P2.ang = [5.0], [[1.0], [2.0], [3.0]]

        def build(S, first=True):
            s = P.make()
            if first:
                o = P2.make()
                quietly(lambda: ctx.meth(o, 'generate', 0, 0.9, 0.5))
                o = P2.make()
            out = {}
            r = ctx.meth(s, 'generate', its, 0.9, 0.5)
            if first:
                quietly(lambda: ctx.meth(o, 'generate', 0, 0.9, 0.5))
            P.read(out, r)
            out['requests'] = I.libs.len_(I, ctx.get(s, 'request_handler'))
            return out
        compare(ctx, 'scheduler among others, %d iterations' % its, build, lambda S=S, build=build: Alone(ctx, S, lambda S: build(S, False)), S, SC, n=60)
    # searches
    from sa.values import BuiltinV
    AL = ctx.name('celest.schedule.alns.ALNS')
    S = Syms()
    c = [S.f('c%d' % i, -20, -0.5) for i in range(4)]

    def search(first, other):
        item = lambda s, i: I.getitem(I.getitem(s, 0), i)

        def mk(base, nd, nr):
            al = ctx.call(AL, ctx.lst([ctx.lst([c[base], base])]))
            cost = BuiltinV('cost', lambda I, a, kw: item(a[0], 0))
            done = BuiltinV('done', lambda I, a, kw: False)
            noop = BuiltinV('noop', lambda I, a, kw: None)

            def put(I, a, kw):
                for q, x in enumerate((c[base + 1], base + 1)):
                    I.libs.setitem(I, I.getitem(a[0], 0), q, x)
            for m, x in (('add_cost_function', cost), ('add_completeness_function', done), ('add_destroy_functions', ctx.lst([noop] * nd)), ('add_repair_functions', ctx.lst([BuiltinV('put', put)] * nr))):
                ctx.meth(al, m, x)
            return al

        def build(S):
            a = mk(0, 1, 1)
            b = mk(2, 2, 1) if other else None
            if other == 'before':
                quietly(lambda: ctx.meth(b, 'solve', 1, 0.5, 0.5, 1, 1))
            r = ctx.meth(a, 'solve', 1, 0.9, 0.25, 2, 3)
            if other == 'after':
                quietly(lambda: ctx.meth(b, 'solve', 1, 0.5, 0.5, 1, 1))
            out = {'cost': item(r, 0), 'id': item(r, 1)}
            for f in ('destroy_weights', 'repair_weights'):
                dump(ctx, k, out, f, ctx.get(a, f))
            return out
        return build
    for when in ('before', 'after'):
        compare(ctx, 'search, another one solved %s' % when, search(True, when), lambda: Alone(ctx, S, search(False, None)), S, 'celest/schedule/alns.py')
    return ctx.finish('other', RULE + ' Reference: the summary of the same object used on its own, from the initial state of the program.', 20)
