"""Time."""
import numpy as np
from sa.harness import Syms
from sa import terms as T
from .units import K, guarded, RULE
from .astro import AQ, at_wraps, two, jq, st, in_range, JLO, JHI
from . import refs as R

WH = 'celest/time.py'


def tm(ctx, js, off=None):
    C = ctx.name('celest.time.Time')
    a = ctx.arr(list(js))
    return ctx.call(C, a) if off is None else ctx.call(C, a, off)


def mst(j, lon): return (24 * (j % 1) - 12 + lon / 15) % 24
def tst(j, lon): return (24 * (j % 1) - 12 + lon / 15 + R.equation_of_time(j) / R.RAD / 15) % 24


SOLAR = {'mean_solar_time': mst, 'true_solar_time': tst, 'mean_hour_angle': lambda j, l: (mst(j, l) - 12) % 24,
         'true_hour_angle': lambda j, l: (tst(j, l) - 12) % 24}
SIDE = {'lmst': lambda j, l: ((mst(j, l) - 12) + R.sun_ra(j) / R.RAD / 15) % 24,
        'last': lambda j, l: (mst(j, 0 * l) - 12 + R.sun_ra(j) / R.RAD / 15 + R.equation_of_equinoxes(j) / 3600 + l / 15) % 24}


def longitudes(ctx, S):
    l0, l1 = S.f('l0', -180, 360, special=[0.0, 180.0, -180.0]), S.f('l1', -180, 360)
    return {'scalar': (l0, lambda v: (v.l0, v.l0)), 'array': (lambda: ctx.arr([l0, l1]), lambda v: (v.l0, v.l1)),
            'list': (lambda: ctx.lst([l0, l1]), lambda v: (v.l0, v.l1))}


def local(ctx, k, table, tol):
    for nm, f in table.items():
        for form in ('scalar', 'array', 'list'):
            S = Syms()
            js = two(S)
            lon, lv = longitudes(ctx, S)[form]
            at_wraps(S, lambda v, f=f, lv=lv: (f(v['j0'], lv(v)[0]), f(v['j1'], lv(v)[1])), 24)

            def build(S, nm=nm, lon=lon):
                out = {}
                ctx.put(out, 't', k.to(ctx.meth(tm(ctx, js), nm, lon() if callable(lon) else lon), 'hourangle'))
                return out

            def ref(v, f=f, lv=lv):
                a, b = lv(v)
                o = {}
                ctx.expect(o, 't', np.stack([f(v.j0, a), f(v.j1, b)], -1))
                return {l: x if l.endswith('shape') else ('mod', (24, x)) for l, x in o.items()}
            ctx.case('%s %s longitude' % (nm, form), build, ref, rel=in_range(24), S=S, n=240, rtol=0, atol=tol, where=WH)


@guarded
def t01(ctx):
    k = K(ctx)
    local(ctx, k, SOLAR, 1e-6)
    S = Syms()
    js = two(S)
    at_wraps(S, lambda v: (mst(v.j0, 0), mst(v.j1, 0)), 24)

    def build(S):
        out = {}
        ctx.put(out, 't', k.to(ctx.meth(tm(ctx, js), 'ut1'), 'hourangle'))
        return out

    def ref(v):
        o = {}
        ctx.expect(o, 't', st(v, lambda j: mst(j, 0)))
        return {l: x if l.endswith('shape') else ('mod', (24, x)) for l, x in o.items()}
    ctx.case('ut1', build, ref, rel=in_range(24), S=S, n=150, rtol=0, atol=1e-6, where=WH)
    return ctx.finish('other', RULE, 8)


@guarded
def t02(ctx):
    k = K(ctx)
    local(ctx, k, SIDE, 1e-6)
    S = Syms()
    js = two(S)
    for nm, f, tol in (('gmst', lambda j: R.gmst_deg(j) / 15, 2e-4),
                       ('gast', lambda j: R.gmst_deg(j) / 15 + R.equation_of_equinoxes(j) / 3600, 2e-4)):
        S = Syms()
        js = two(S)
        at_wraps(S, lambda v, f=f: (f(v.j0), f(v.j1)), 24)

        def build(S, nm=nm, js=js):
            out = {}
            ctx.put(out, 't', k.to(ctx.meth(tm(ctx, js), nm), 'hourangle'))
            return out

        def ref(v, f=f):
            o = {}
            ctx.expect(o, 't', st(v, f))
            return {l: x if l.endswith('shape') else ('mod', (24, x)) for l, x in o.items()}
        ctx.case(nm, build, ref, rel=in_range(24), S=S, n=400, rtol=0, atol=tol, where=WH)

    S = Syms()
    js = two(S)

    def build(S):
        out = {}
        t = tm(ctx, js)
        a, b = k.to(ctx.meth(t, 'gast'), 'hourangle'), k.to(ctx.meth(t, 'gmst'), 'hourangle')
        ctx.put(out, 'eqeq', ctx.op('sub', a, b))
        return out

    def ref(v):
        o = {}
        ctx.expect(o, 'eqeq', st(v, lambda j: R.equation_of_equinoxes(j) / 3600))
        return {l: x if l.endswith('shape') else ('mod', (24, x)) for l, x in o.items()}
    ctx.case('gast-gmst', build, ref, S=S, n=150, rtol=0, atol=1e-8, where=WH)
    return ctx.finish('other', RULE, 7)


def off_midnight(v):
    """Dates a rounding error away from midnight are moved to it."""
    v = dict(v)
    for q in ('j0', 'j1'):
        x = np.asarray(v[q], float)
        m = np.round(x - 0.5) + 0.5
        v[q] = np.where(np.abs(x - m) < 1e-6, m, x)
    return v


@guarded
def t03(ctx):
    k = K(ctx)
    spec = [0.0, 2299160.5, 2299160.25, 2299159.5, 2451544.5, 2415079.5, 2415078.5, 2451603.5, 2451604.5, 1721423.5, 5373484.375]
    for nm, lo, hi in (('all', 0.0, 5373484.0), ('modern', 2415020.5, 2488069.5), ('reform', 2299000.0, 2299400.0), ('any time of day', 0.0, 5373484.0)):
        S = Syms()
        anytime = nm.startswith('any')
        js = two(S, lo, hi, grid=None if anytime else 0.125, special=[s for s in spec if lo <= s <= hi])
        if anytime:
            S.post = off_midnight

        def build(S):
            out = {}
            y, m, d = ctx.I.libs.iterate(ctx.I, ctx.call(ctx.name(AQ + 'from_julian'), jq(ctx, k, js)))
            ctx.put(out, 'y', y)
            ctx.put(out, 'm', m)
            ctx.put(out, 'd', d)
            return out

        def ref(v):
            o = {}
            a, b = R.civil(v.j0), R.civil(v.j1)
            for i, l in enumerate('ymd'):
                ctx.expect(o, l, np.stack([a[i], b[i]], -1))
            return o
        ctx.case('from_julian %s' % nm, build, ref, S=S, n=800, rtol=0, atol=5e-9, edges='exact', where='celest/coordinates/astronomical_quantities.py')

        def build(S):
            out = {}
            ctx.put(out, 'n', ctx.call(ctx.name(AQ + 'day_of_year'), jq(ctx, k, js)))
            return out

        def ref(v):
            o = {}
            ctx.expect(o, 'n', st(v, R.yday))
            return o
        ctx.case('day_of_year %s' % nm, build, ref, S=S, n=800, rtol=0, atol=5e-9, edges='exact', where='celest/coordinates/astronomical_quantities.py')
    # a scalar quantity gives the same date
    S = Syms()
    js = two(S, 0.0, 5373484.0, grid=0.125, special=spec)

    def build(S):
        out = {}
        y, m, d = ctx.I.libs.iterate(ctx.I, ctx.call(ctx.name(AQ + 'from_julian'), k.q(js[0], 'jd2000')))
        for l, x in (('y', y), ('m', m), ('d', d)):
            out[l] = ctx.vals(x)[1][0]
        return out

    def ref(v):
        return dict(zip('ymd', R.civil(v.j0)))
    ctx.case('from_julian scalar', build, ref, S=S, n=600, rtol=0, atol=1e-7, edges='exact')
    # datetime()
    dt_spec = [2299160.5, 2299161.375, 2451544.5, 2451604.375, 2415078.5, 2415079.375]

    def build(S):
        js = [S.d[q].term for q in ('j0', 'j1')]
        r = ctx.meth(tm(ctx, js), 'datetime')
        sh, xs = ctx.vals(r)
        out = {'shape': str(sh)}
        for i, x in enumerate(xs):
            out['kind%d' % i] = ctx.cls(x)
            f = ctx.I.cell(x).fields if ctx.I.is_obj(x) else {}
            if 'days' not in f:
                continue
            for c, n in (('y', 'y'), ('m', 'm'), ('d', 'd'), ('days', 'days')):
                out['%s%d' % (n, i)] = f[c]
        return out

    def rel(v, G, p):
        if '!raise' in G:
            return None
        out = {}
        for i in (0, 1):
            if 'days%d' % i not in G:
                return {'a datetime[%d]' % i: False}
            y, m, d, e = [np.asarray(G['%s%d' % (n, i)], float) for n in ('y', 'm', 'd', 'days')]
            mi = np.clip(m, 1, 12).astype(int)
            out['valid date'] = out.get('valid date', True) & (m >= 1) & (m <= 12) & (d >= 1) & (d <= R.MLEN[mi] + ((mi == 2) & R.is_leap(y))) & (y >= 1) & (y <= 9999)
            out['instant %d' % i] = np.abs(R.greg_ordinal(y, m, d) - 0.5 + e - v['j%d' % i]) < 2e-9
        return out
    for nm, grid in (('datetime', 0.125), ('datetime, any time of day', None)):
        S = Syms()
        two(S, 2299160.5, 5373484.0, grid=grid, special=dt_spec)
        if grid is None:
            S.post = off_midnight
        ctx.case(nm, build, lambda v: {'shape': '(2,)'}, rel=rel, S=S, n=800, edges='exact', where=WH)
    return ctx.finish('other', RULE + ' Reference: an independent proleptic-calendar algorithm on a dyadic grid of Julian dates, boundaries included.', 6)


METHODS = ['true_solar_time', 'mean_solar_time', 'true_hour_angle', 'mean_hour_angle', 'ut1', 'gmst', 'lmst', 'gast', 'last']
AQF = ['earth_rotation_angle', 'nutation_angles', 'nutation_components', 'conventional_precession_angles', 'mean_obliquity', 'apparent_obliquity',
       'from_julian', 'day_of_year', 'equation_of_time', 'equation_of_equinoxes', 'sun_right_ascension']


def flat(ctx, r):
    """Scalars of a result: Quantity, array, tuple of those."""
    I = ctx.I
    if isinstance(r, tuple) or I.is_seq(r):
        return [flat(ctx, x) for x in I.libs.iterate(I, r)]
    if I.is_obj(r):
        r = ctx.get(r, 'data')
    return ctx.vals(r)


@guarded
def t04(ctx):
    """Batch of three against three batches of one."""
    k = K(ctx)
    for lo, hi, tag, N in [(JLO, JHI, 'modern', 3), (2299000.0, 2299400.0, 'reform', 3)] + [(JLO, JHI, 'modern', n) for n in ctx.wide()]:
        S = Syms(N)
        js = [S.f('j%d' % i, lo, hi, grid=0.125) for i in range(N)]
        L = [S.f('l%d' % i, -180, 180) for i in range(N)]

        def compare(out, whole, parts, i=''):
            if isinstance(whole, list):
                for q, w in enumerate(whole):
                    compare(out, w, [p[q] for p in parts], '%s%d' % (i, q))
                return
            sh, xs = whole
            out['shape' + i] = str(sh)
            if len(xs) == N:
                for q in range(N):
                    out['d%s.%d' % (i, q)] = T.sub(*[T.mul(1.0, z) for z in (xs[q], parts[q][1][0])])

        def ref0(n):
            return lambda v: {**{l: 0.0 for l in n}}
        jobs = []
        if tag == 'modern':
            for m in METHODS:
                need = m not in ('ut1', 'gmst', 'gast')
                jobs.append((m, lambda js_, L_, m=m, need=need: ctx.meth(tm(ctx, js_), m, *([ctx.arr(L_)] if need else []))))
        for f in AQF if tag == 'modern' else ['from_julian', 'day_of_year']:
            jobs.append((f, lambda js_, L_, f=f: ctx.call(ctx.name(AQ + f), jq(ctx, k, js_))))
        for nm, job in jobs:
            def build(S, job=job, nm=nm):
                out = {}
                solo = {}
                # the branches of a calendar date are many: a wide batch of those has two different dates
                ds = js if N == 3 or nm != 'day_of_year' else [js[(i * 2654435761 >> 9) % 2] for i in range(N)]
                for x, l in zip(ds, L):
                    if (x, l) not in solo:
                        solo[x, l] = flat(ctx, job([x], [l]))
                compare(out, flat(ctx, job(ds, L)), [solo[x, l] for x, l in zip(ds, L)])
                return out

            def rel(v, G, p):
                if '!raise' in G:
                    return None
                return {l: (np.abs(np.asarray(x, float)) < 1e-7) if l[0] == 'd' else np.array([q == '(%d,)' % N for q in x]) for l, x in G.items()}
            ctx.case('%s %s%s' % (nm, tag, '' if N == 3 else ', %d dates' % N), build, lambda v: {}, rel=rel, S=S, n=120, edges='exact')
    return ctx.finish('other', RULE + ' The summary of a batch of three dates is compared, entry by entry, with the summaries of three single-date calls.', 10)


@guarded
def t05(ctx):
    k = K(ctx)
    S = Syms()
    js = two(S)
    l0, l1 = S.f('l0', -180, 180), S.f('l1', -180, 180)
    for m in METHODS + ['datetime', 'julian']:
        def build(S, m=m):
            a, lon = ctx.arr(list(js)), ctx.arr([l0, l1])
            t = ctx.call(ctx.name('celest.time.Time'), a)
            first = None
            for rep in (0, 1):
                if m == 'julian':
                    r = ctx.get(t, 'julian')
                elif m in ('ut1', 'gmst', 'gast', 'datetime'):
                    r = ctx.meth(t, m)
                else:
                    r = ctx.meth(t, m, lon)
            out = {}
            ctx.put(out, 'in', a)
            ctx.put(out, 'lon', lon)
            ctx.put(out, 'julian', k.to(ctx.get(t, 'julian'), 'jd2000'))
            b = ctx.buf(r if m == 'datetime' else ctx.get(r, 'data'))
            out['aliases the input'] = b is not None and b in (ctx.buf(a), ctx.buf(lon))
            return out

        def ref(v):
            o = {'aliases the input': False}
            J = np.stack([v.j0, v.j1], -1)
            ctx.expect(o, 'in', J)
            ctx.expect(o, 'julian', J)
            ctx.expect(o, 'lon', np.stack([v.l0, v.l1], -1))
            return o
        S_ = S
        ctx.case('Time.%s' % m, build, ref, S=S_, n=30, rtol=1e-15, atol=0, where=WH)
    for f in AQF:
        def build(S, f=f):
            a = ctx.arr(list(js))
            q = k.q(a, 'jd2000')
            ctx.call(ctx.name(AQ + f), q)
            out = {}
            ctx.put(out, 'in', a)
            ctx.put(out, 'q', ctx.get(q, 'data'))
            return out

        def ref(v):
            o = {}
            for l in ('in', 'q'):
                ctx.expect(o, l, np.stack([v.j0, v.j1], -1))
            return o
        ctx.case(f, build, ref, S=S, n=30, rtol=1e-15, atol=0)
    return ctx.finish('other', RULE + ' The heap after each call is compared with the heap before it.', 12)


@guarded
def t06(ctx):
    k = K(ctx)
    S = Syms()
    j0, j1, off = S.f('j0', 0, 60000), S.f('j1', 0, 60000), S.f('off', 0, 2400000, special=[0.0])
    C = ctx.name('celest.time.Time')
    forms = {'array': (lambda: ctx.arr([j0, j1]), 2), 'list': (lambda: ctx.lst([j0, j1]), 2), 'tuple': (lambda: (j0, j1), 2), 'scalar': (lambda: j0, 1),
             '1-array': (lambda: ctx.arr([j0]), 1), '0-d': (lambda: ctx.I.newarr([j0], (), 'f'), 1), 'ints': (lambda: ctx.lst([2455368, 2459450]), 2)}
    for nm, (mk, n) in forms.items():
        for o in (0, 1):
            def build(S, mk=mk, o=o):
                t = ctx.call(C, mk(), off) if o else ctx.call(C, mk())
                out = {'len': ctx.I.libs.len_(ctx.I, t)}
                ctx.put(out, 'j', k.to(ctx.get(t, 'julian'), 'jd2000'))
                out['unit'] = ctx.str(ctx.get(ctx.get(t, 'julian'), 'unit'))
                return out

            def ref(v, n=n, o=o, nm=nm):
                f = v.off if o else 0 * v.off
                a = [v.j0, v.j1][:n] if nm != 'ints' else [2455368 + 0 * f, 2459450 + 0 * f]
                r = {'len': n, 'unit': 'jd2000'}
                ctx.expect(r, 'j', np.stack([x + f for x in a], -1))
                return r
            ctx.case('%s%s' % (nm, ' offset' if o else ''), build, ref, S=S, n=40, rtol=1e-14, atol=0, where=WH)

    def build(S):
        ctx.call(C, ctx.arr([[j0, j1]]))
        return {}
    ctx.case('2-d rejected', build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=WH)

    def build(S):
        ctx.call(C, ctx.lst([ctx.lst([j0]), ctx.lst([j1])]))
        return {}
    ctx.case('nested list rejected', build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=WH)
    # length agrees with every result
    for m in METHODS + ['datetime']:
        def build(S, m=m):
            t = ctx.call(C, ctx.arr([j0, j1]), 2430000)
            r = ctx.meth(t, m, *([0.0] if m not in ('ut1', 'gmst', 'gast', 'datetime') else []))
            r = r if m == 'datetime' else ctx.get(r, 'data')
            out = {'shape': str(ctx.vals(r)[0])}
            if m != 'datetime':
                out['unit'] = ctx.str(ctx.get(ctx.meth(t, m, *([0.0] if m not in ('ut1', 'gmst', 'gast') else [])), 'unit'))
            return out
        ctx.case('shape of %s' % m, build, lambda v, m=m: {'shape': '(2,)', **({'unit': 'hourangle'} if m != 'datetime' else {})}, S=S, n=10, where=WH)
    return ctx.finish('other', RULE, 8)
