"""Astronomical quantities."""
import numpy as np
from sa.harness import Syms, V
from sa import terms as T
from .units import K, guarded, RULE
from . import refs as R

AQ = 'celest.coordinates.astronomical_quantities.'
NP = 'celest.coordinates.nutation_precession_matrices.'
JLO, JHI = 2415020.0, 2488070.0          # 1900 .. 2100


def two(S, lo=JLO, hi=JHI, **k):
    return S.f('j0', lo, hi, **k), S.f('j1', lo, hi, **k)


def jq(ctx, k, js):
    return k.q(ctx.arr(list(js)), 'jd2000')


def st(v, f):
    return np.stack([f(v.j0), f(v.j1)], -1)


def at_wraps(S, f, period, rate=None):
    """Half of the dates are moved to where f(v)[i] passes through a multiple of its period, and to either side of it."""
    S.one_of('wrap', [9.0] * 9 + [0.0, 1e-9, -1e-9, 1e-7, -1e-7, 1e-6, -1e-6, 1e-5, -1e-5])
    rate = rate or period

    def post(v):
        v = dict(v)
        w = np.asarray(v['wrap'], float)
        u = dict(v)
        for _ in range(6):
            for i, x in enumerate(f(V(u))):
                d = (-x + period / 2) % period - period / 2 if _ else (-x) % period
                u['j%d' % i] = np.asarray(u['j%d' % i], float) + d / rate
        for i in (0, 1):
            v['j%d' % i] = np.where(w == 9, v['j%d' % i], u['j%d' % i] + w)
        return v
    S.post = post


@guarded
def a01(ctx):
    k = K(ctx)
    S = Syms()
    js = two(S)
    DEG, AS, RD = 'deg', 'arcsec', 'rad'
    # function, unit of comparison, references, tolerance, period
    table = [
        ('earth_rotation_angle', DEG, [R.era], 5e-3, 360),
        ('nutation_angles', DEG, [R.elongation, R.anomaly_sun, R.anomaly_moon, R.arg_lat_moon, R.node], 1e-6, 360),
        ('nutation_components', AS, list_fn(R.nutation, 2), 1e-5, None),
        ('conventional_precession_angles', AS, [R.zeta, R.theta, R.z_angle], 1e-5, None),
        ('mean_obliquity', DEG, [R.obliquity], 1e-8, None),
        ('apparent_obliquity', DEG, [R.apparent_obliquity], 1e-8, None),
        ('equation_of_time', RD, [R.equation_of_time], 1e-9, None),
        ('equation_of_equinoxes', AS, [R.equation_of_equinoxes], 1e-6, None),
        ('sun_right_ascension', RD, [R.sun_ra], 1e-7, 2 * np.pi),
    ]
    for nm, unit, refs, tol, period in table:
        for form in ('array', 'scalar'):
            def build(S, nm=nm, unit=unit, form=form, refs=refs):
                j = jq(ctx, k, js) if form == 'array' else k.q(js[0], 'jd2000')
                r = ctx.call(ctx.name(AQ + nm), j)
                rs = list(ctx.I.libs.iterate(ctx.I, r)) if len(refs) > 1 else [r]
                out = {'count': len(rs)}
                for i, q in enumerate(rs):
                    ctx.put(out, 'r%d' % i, k.to(q, unit))
                return out

            def ref(v, refs=refs, form=form, tol=tol, period=period):
                o = {}
                for i, f in enumerate(refs):
                    ctx.expect(o, 'r%d' % i, st(v, f) if form == 'array' else f(v.j0))
                for q in list(o):
                    if not q.endswith('shape'):
                        o[q] = ('mod', (period, o[q])) if period else ('tol', tol, o[q])
                o['count'] = len(refs)
                return o
            ctx.case('%s %s' % (nm, form), build, ref, S=S, n=120, rtol=0, atol=tol, where='celest/coordinates/astronomical_quantities.py')
            if nm in FAR and form == 'array':
                SF = Syms()
                y, tol2 = FAR[nm]
                two(SF, 2451545.0 - 365.25 * y, 2451545.0 + 365.25 * y)
                ctx.case('%s, %d years around J2000' % (nm, y), build, lambda v, ref=ref, tol=tol2: ref(v, tol=tol), S=SF, n=120, rtol=0, atol=tol2,
                         where='celest/coordinates/astronomical_quantities.py')
    S2 = Syms()
    la = S2.f('la', -90, 90, special=[-90.0, 90.0, 0.0])

    def build(S):
        out = {}
        f = ctx.name(AQ + 'radius_of_curvature_in_prime_vertical')
        ctx.put(out, 'n', k.to(ctx.call(f, k.q(la, 'deg')), 'km'))
        ctx.put(out, 'm', k.to(ctx.call(f, k.q(T.mul(la, np.pi / 180), 'rad')), 'km'))
        return out

    def ref(v):
        n = R.WA / np.sqrt(1 - R.WE2 * np.sin(v.la * R.RAD) ** 2)
        return {'n': n, 'm': n}
    ctx.case('prime vertical radius', build, ref, S=S2, n=100, rtol=1e-9, atol=0)
    for nm, rf, tol in (('bias_matrix', lambda v: np.broadcast_to(R.bias(), (v['_n'], 3, 3)), 1e-12),
                        ('precession_matrix', lambda v: np.stack([R.precession(v.j0), R.precession(v.j1)], 1), 1e-10),
                        ('nutation_matrix', lambda v: np.stack([R.nutation_m(v.j0), R.nutation_m(v.j1)], 1), 1e-10)):
        def build(S, nm=nm):
            out = {}
            f = ctx.name(NP + nm)
            m = ctx.call(f) if nm == 'bias_matrix' else ctx.call(f, jq(ctx, k, js))
            ctx.put(out, 'm', m)
            return out

        def ref(v, rf=rf):
            o = {}
            ctx.expect(o, 'm', rf(v))
            return o
        ctx.case(nm, build, ref, S=S, n=60, rtol=0, atol=tol, where='celest/coordinates/nutation_precession_matrices.py')
    return ctx.finish('other', RULE + ' Reference: the published series, evaluated over 1900-2100.', 12)


# half-width of a wider range of dates (years), tolerance there
FAR = {'mean_obliquity': (10000, 1e-7), 'apparent_obliquity': (5000, 1e-6), 'nutation_angles': (5000, 1e-5), 'nutation_components': (3000, 1e-4),
       'conventional_precession_angles': (3000, 1e-4), 'equation_of_time': (2000, 1e-8), 'equation_of_equinoxes': (2000, 1e-5), 'sun_right_ascension': (2000, 1e-6)}


def list_fn(f, n):
    return [lambda j, i=i: f(j)[i] for i in range(n)]


@guarded
def a02(ctx):
    """Ranges, by interval analysis of the value graphs where it closes, else by witness."""
    k = K(ctx)
    angles = [R.elongation, R.anomaly_sun, R.anomaly_moon, R.arg_lat_moon, R.node]
    rates = [445267.111480, 35999.050340, 477198.867398, 483202.017538, -1934.136261]
    tab = [('earth_rotation_angle', 'deg', 1, 360, None, None), ('earth_rotation_angle', 'deg', 1, 360, R.era, 360.9856)]
    tab += [('nutation_angles', 'deg', 5, 360, None, None)] + [('nutation_angles', 'deg', 5, 360, f, r / 36525) for f, r in zip(angles, rates)]
    tab += [('sun_right_ascension', 'rad', 1, 2 * np.pi, None, None), ('sun_right_ascension', 'rad', 1, 2 * np.pi, R.sun_ra, 2 * np.pi / 365.25)]
    for nm, unit, cnt, hi, wrap, rate in tab:
        S = Syms()
        js = two(S, 0.0, 5e6) if wrap is None else two(S)
        if wrap is not None:
            at_wraps(S, lambda v, f=wrap: (f(v['j0']), f(v['j1'])), hi, rate)

        def build(S, nm=nm, unit=unit, cnt=cnt, js=js):
            r = ctx.call(ctx.name(AQ + nm), jq(ctx, k, js))
            rs = list(ctx.I.libs.iterate(ctx.I, r)) if cnt > 1 else [r]
            out = {}
            for i, q in enumerate(rs):
                ctx.put(out, 'r%d' % i, k.to(q, unit))
            return out
        ctx.case(nm if wrap is None else '%s where %s passes zero' % (nm, wrap.__name__), build, lambda v: {}, rel=in_range(hi), S=S, n=400)
    return ctx.finish('other', RULE, 3)


def in_range(hi, lo=0.0):
    def rel(v, G, p):
        if '!raise' in G:
            return None
        out = {}
        for l, x in G.items():
            if l.endswith('.shape') or l.startswith('_'):
                continue
            x = np.asarray(x, float)
            out[l + ' outside [%g,%g)' % (lo, hi)] = (x >= lo) & (x < hi * (1 + 1e-12))
        return out
    return rel
