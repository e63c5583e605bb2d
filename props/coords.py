"""Coordinate frames and transformations, satellites."""
import numpy as np
from sa.harness import Syms
from sa import terms as T
from .units import K, guarded, RULE
from . import refs as R

FR = 'celest.coordinates.frames.'
C = 'celest.coordinates.'
TR = 'celest/coordinates/transforms.py'
RAD = R.RAD
JLO, JHI = 2440000.5, 2470000.5
LEN = {'km': 1.0, 'm': 1e-3, 'mi': 1.609344, 'cm': 1e-5}      # in km
ANG = {'deg': 1.0, 'rad': 180 / np.pi, 'arcmin': 1 / 60, 'hourangle': 15.0}


def frame(ctx, k, name, j, cols, *units):
    mod = {'GCRS': 'gcrs', 'ITRS': 'itrs', 'WGS84': 'wgs84', 'AzEl': 'azel', 'LVLH': 'lvlh', 'Attitude': 'attitude'}[name]
    return ctx.call(ctx.name(FR + mod + '.' + name), ctx.arr(list(j)), *([ctx.arr(list(c)) for c in cols] + [k.unit(x) for x in units]))


def convert(ctx, pos, name, loc=None):
    mod = {'GCRS': 'gcrs', 'ITRS': 'itrs', 'WGS84': 'wgs84', 'AzEl': 'azel'}[name]
    co = ctx.call(ctx.name(C + 'coordinate.Coordinate'), pos)
    cls = ctx.name(FR + mod + '.' + name)
    return ctx.meth(co, 'convert_to', cls, loc) if loc is not None else ctx.meth(co, 'convert_to', cls)


def location(ctx, k, lat, lon, h, ua='deg', ul='km'):
    return ctx.call(ctx.name(C + 'ground_location.GroundLocation'), lat, lon, h, k.unit(ua), k.unit(ul))


def xyz(S, n=2, r=8000.0, names='xyz'):
    return [[S.f('%s%d' % (c, i), -r, r) for i in range(n)] for c in names]


def js(S, n=2):
    return [S.f('j%d' % i, JLO, JHI) for i in range(n)]


def vec(v, n, names='xyz'):
    """(nval, n, 3)"""
    return np.stack([np.stack([v['%s%d' % (c, i)] for c in names], -1) for i in range(n)], 1)


def cols(ctx, out, k, p, attrs, unit):
    for a in attrs:
        u = unit[a] if isinstance(unit, dict) else unit
        ctx.put(out, a, k.to(ctx.get(p, a), u))


def got(G, lab, n):
    return np.stack([np.asarray(G['%s[%d]' % (lab, i)], float) for i in range(n)], -1)


def mod_close(a, b, period, tol):
    d = np.mod(a - b + period / 2, period) - period / 2
    return np.abs(d) < tol


def matmul(M, r):
    return np.einsum('...ij,...j->...i', M, r)


def gast_out(ctx, k, out, j):
    t = ctx.call(ctx.name('celest.time.Time'), ctx.arr(list(j)))
    ctx.put(out, 'gast', k.to(ctx.meth(t, 'gast'), 'deg'))


def rotation(jd, gast):
    return R.Rz(gast * RAD) @ R.nutation_m(jd) @ R.precession(jd) @ R.bias()


def rot_cases(ctx, src, dst, inverse):
    k = K(ctx)
    for unit, n in [('km', 2), ('m', 1), ('mi', 3)] + [('km', n) for n in ctx.wide()]:
        S = Syms(n)
        j = js(S, n)
        q = xyz(S, n)

        def build(S, unit=unit, n=n, j=j, q=q):
            out = {}
            p = convert(ctx, frame(ctx, k, src, j, q, unit), dst)
            cols(ctx, out, k, p, 'xyz', unit)
            ctx.put(out, 'time', k.to(ctx.get(p, 'time'), 'jd2000'))
            out['unit'] = ctx.str(ctx.get(ctx.get(p, 'x'), 'unit'))
            gast_out(ctx, k, out, j)
            return out

        def ref(v, unit=unit, n=n):
            o = {'unit': unit}
            ctx.expect(o, 'time', np.stack([v['j%d' % i] for i in range(n)], -1))
            return o

        def rel(v, G, p, n=n):
            if '!raise' in G:
                return None
            out = {}
            for i in range(n):
                M = rotation(v['j%d' % i], np.asarray(G['gast[%d]' % i], float))
                if inverse:
                    M = np.swapaxes(M, -1, -2)
                e = matmul(M, vec(v, n)[:, i])
                for c, l in enumerate('xyz'):
                    out['%s[%d]' % (l, i)] = np.abs(np.asarray(G['%s[%d]' % (l, i)], float) - e[:, c]) < 2e-7
                    out[l + '.shape'] = np.array([s == '(%d,)' % n for s in G[l + '.shape']])
            return out
        ctx.case('%s->%s %s batch of %d' % (src, dst, unit, n), build, ref, rel=rel, S=S, n=150, rtol=0, atol=1e-9, where=TR)


@guarded
def c01(ctx):
    rot_cases(ctx, 'GCRS', 'ITRS', False)
    return ctx.finish('other', RULE + ' Reference: R3(GAST) N P B built from elementary rotations.', 2)


@guarded
def c02(ctx):
    rot_cases(ctx, 'ITRS', 'GCRS', True)
    k = K(ctx)
    for a, b in (('GCRS', 'ITRS'), ('ITRS', 'GCRS')):
        S = Syms()
        j, q = js(S), xyz(S)

        def build(S):
            out = {}
            p = convert(ctx, convert(ctx, frame(ctx, k, a, j, q, 'km'), b), a)
            cols(ctx, out, k, p, 'xyz', 'km')
            return out

        def ref(v):
            o = {}
            for c, l in enumerate('xyz'):
                ctx.expect(o, l, vec(v, 2)[:, :, c])
            return o
        ctx.case('%s->%s->%s' % (a, b, a), build, ref, S=S, n=100, rtol=0, atol=1e-6, where=TR)
    return ctx.finish('other', RULE, 3)


def geo_syms(n, hlo=-100.0, hhi=40000.0):
    """Geodetic inputs; x, y, z (km) follow from them."""
    S = Syms(n)
    la = [S.f('la%d' % i, -90, 90, special=[90.0, -90.0, 0.0, 89.99, -89.99, 45.0]) for i in range(n)]
    lo = [S.f('lo%d' % i, -180, 180, special=[0.0, 90.0, -90.0, 180.0, -180.0]) for i in range(n)]
    h = [S.f('h%d' % i, hlo, hhi, special=[0.0]) for i in range(n)]
    return S, la, lo, h


def with_xyz(S, n):
    for c in 'xyz':
        for i in range(n):
            S.f('%s%d' % (c, i), -1, 1)

    def post(v):
        for i in range(n):
            w = R.wgs2itrs(v['la%d' % i].astype(float) * RAD, v['lo%d' % i].astype(float) * RAD, v['h%d' % i].astype(float))
            for c, l in enumerate('xyz'):
                # points of the coordinate planes lie in them exactly
                v['%s%d' % (l, i)] = np.where(np.abs(w[..., c]) < 1e-6, 0.0, w[..., c])
        return v
    S.post = post


@guarded
def c03(ctx):
    k = K(ctx)
    for ua, ul, n in [('deg', 'km', 2), ('rad', 'm', 2), ('arcmin', 'mi', 1)] + [('deg', 'km', n) for n in ctx.wide()]:
        S, la, lo, h = geo_syms(n)

        def build(S):
            out = {}
            p = convert(ctx, frame(ctx, k, 'WGS84', [2451545.0] * n, [[T.div(x, ANG[ua]) for x in la], [T.div(x, ANG[ua]) for x in lo],
                                                                       [T.div(x, LEN[ul]) for x in h]], ua, ul), 'ITRS')
            cols(ctx, out, k, p, 'xyz', 'km')
            return out

        def ref(v):
            o = {}
            w = np.stack([R.wgs2itrs(v['la%d' % i] * RAD, v['lo%d' % i] * RAD, v['h%d' % i]) for i in range(n)], 1)
            for c, l in enumerate('xyz'):
                ctx.expect(o, l, w[:, :, c])
            return o
        ctx.case('WGS84->ITRS %s %s' % (ua, ul), build, ref, S=S, n=200, rtol=0, atol=1e-6, where=TR)

    def geo_rel(n, ua):
        def rel(v, G, p):
            if '!raise' in G:
                return None
            out = {}
            for i in range(n):
                la, lo, h = v['la%d' % i], v['lo%d' % i], v['h%d' % i]
                out['latitude[%d]' % i] = np.abs(np.asarray(G['latitude[%d]' % i], float) - la) < 1e-6
                pole = np.abs(la) > 89.9999999
                out['longitude[%d]' % i] = pole | mod_close(np.asarray(G['longitude[%d]' % i], float), lo, 360, 1e-6)
                out['height[%d]' % i] = np.abs(np.asarray(G['height[%d]' % i], float) - h) < 2e-4
            for l in ('latitude', 'longitude', 'height'):
                out[l + '.shape'] = np.array([s == '(%d,)' % n for s in G[l + '.shape']])
            return out
        return rel
    WU = {'latitude': 'deg', 'longitude': 'deg', 'height': 'km'}
    for unit, n, hi in [('km', 2, 40000.0), ('m', 1, 40000.0), ('km', 3, 800.0)] + [('km', n, 40000.0) for n in ctx.wide()]:
        S, la, lo, h = geo_syms(n, hhi=hi)
        with_xyz(S, n)

        def build(S):
            out = {}
            q = [[T.div(S.d['%s%d' % (c, i)].term, LEN[unit]) for i in range(n)] for c in 'xyz']
            p = convert(ctx, frame(ctx, k, 'ITRS', [2451545.0] * n, q, unit), 'WGS84')
            cols(ctx, out, k, p, WU, WU)
            return out
        ctx.case('ITRS->WGS84 %s batch of %d' % (unit, n), build, lambda v: {}, rel=geo_rel(n, 'deg'), S=S, n=200, where=TR)
    S, la, lo, h = geo_syms(2)

    def build(S):
        out = {}
        p = convert(ctx, convert(ctx, frame(ctx, k, 'WGS84', [2451545.0] * 2, [la, lo, h], 'deg', 'km'), 'ITRS'), 'WGS84')
        cols(ctx, out, k, p, WU, WU)
        return out
    ctx.case('WGS84->ITRS->WGS84', build, lambda v: {}, rel=geo_rel(2, 'deg'), S=S, n=150, where=TR)
    return ctx.finish('other', RULE + ' The iteration of the geodetic inverse is summarised as a fixpoint term.', 4)


@guarded
def c04(ctx):
    k = K(ctx)
    W = 'celest/coordinates/ground_location.py'
    for ua in ANG:
        for ul in ('km', 'm'):
            S, (la,), (lo,), (h,) = geo_syms(1, -5, 10)
            if ua != 'deg':
                for q in ('la0', 'lo0'):
                    s = S.d[q]
                    s.lo, s.hi, s.special = s.lo * 0.9999, s.hi * 0.9999, [0.0]

            def build(S):
                g = location(ctx, k, T.div(la, ANG[ua]), T.div(lo, ANG[ua]), T.div(h, LEN[ul]), ua, ul)
                out = {}
                for a in ('itrs_x', 'itrs_y', 'itrs_z', 'radius'):
                    ctx.put(out, a, k.to(ctx.get(g, a), 'km'))
                ctx.put(out, 'lat', k.to(ctx.get(g, 'latitude'), 'deg'))
                ctx.put(out, 'lon', k.to(ctx.get(g, 'longitude'), 'deg'))
                ctx.put(out, 'h', k.to(ctx.get(g, 'height'), 'km'))
                for a, l in (('latitude', 'ua'), ('longitude', 'uo'), ('height', 'uh')):
                    out[l] = ctx.str(ctx.get(ctx.get(g, a), 'unit'))
                return out

            def ref(v):
                w = R.wgs2itrs(v.la0 * RAD, v.lo0 * RAD, v.h0)
                s0 = R.wgs2itrs(v.la0 * RAD, v.lo0 * RAD, 0 * v.h0)
                o = {'ua': ua, 'uo': ua, 'uh': ul}
                for l, x in (('itrs_x', w[:, 0]), ('itrs_y', w[:, 1]), ('itrs_z', w[:, 2]), ('radius', np.linalg.norm(s0, axis=1) + v.h0),
                             ('lat', v.la0), ('lon', v.lo0), ('h', v.h0)):
                    ctx.expect(o, l, x)
                return o
            ctx.case('location %s %s' % (ua, ul), build, ref, S=S, n=120, rtol=1e-9, atol=1e-6, where=W)
        # limits
        S = Syms()
        edge = ua == 'deg'
        la, lo = S.f('la', -200, 200, special=[-90.0, 0.0, 90.0] if edge else ()), S.f('lo', -400, 400, special=[-180.0, 0.0, 180.0] if edge else ())

        def build(S):
            location(ctx, k, T.div(la, ANG[ua]), T.div(lo, ANG[ua]), 0.0, ua)
            return {'made': True}

        def ref(v):
            bad = (np.abs(v.la) > 90) | (np.abs(v.lo) > 180)
            return {'!raise': bad, '!exc': ['ValueError'], 'made': True}
        ctx.case('limits %s' % ua, build, ref, S=S, n=300, where=W, edges='exact' if edge else 'ignore')
    # the same point through the WGS84 frame
    S, la, lo, h = geo_syms(1, -5, 10)

    def build(S):
        out = {}
        g = location(ctx, k, la[0], lo[0], h[0])
        p = convert(ctx, frame(ctx, k, 'WGS84', [2451545.0], [la, lo, h], 'deg', 'km'), 'ITRS')
        for c in 'xyz':
            a, b = ctx.vals(k.to(ctx.get(g, 'itrs_' + c), 'km'))[1][0], ctx.vals(k.to(ctx.get(p, c), 'km'))[1][0]
            out[c] = T.sub(a, b)
        return out
    ctx.case('GroundLocation and WGS84 agree', build, lambda v: {c: 0 * v.la0 for c in 'xyz'}, S=S, n=150, rtol=0, atol=1e-6, where=W)
    return ctx.finish('other', RULE, 8)


def enu(la, lo, h):
    g = R.wgs2itrs(la * RAD, lo * RAD, h)
    up = g / np.linalg.norm(g, axis=-1, keepdims=True)
    z = np.zeros_like(up)
    z[..., 2] = 1
    e = np.cross(z, up)
    e /= np.linalg.norm(e, axis=-1, keepdims=True)
    return g, e, np.cross(up, e), up


def azel_ref(v, i):
    g, e, n, u = enu(v.la, v.lo, v.h)
    d = np.stack([v['%s%d' % (c, i)] for c in 'xyz'], -1) - g
    dd = np.linalg.norm(d, axis=-1)
    a = np.degrees(np.arctan2((d * e).sum(-1), (d * n).sum(-1))) % 360
    up = (d * u).sum(-1) / dd
    hor = np.sqrt(np.maximum(0, 1 - up ** 2))
    return a, np.degrees(np.arcsin(np.clip(up, -1, 1))), hor


def site_syms(lat=89.5, n=2):
    S = Syms(n)
    S.f('la', -lat, lat, special=[0.0]), S.f('lo', -180, 180, special=[0.0, 90.0, 180.0]), S.f('h', -1, 9, special=[0.0])
    q = xyz(S, n, 20000.0)
    return S, q


def azel_rel(n, strict=True):
    def rel(v, G, p):
        if '!raise' in G:
            return None
        out = {}
        for i in range(n):
            a, e, hor = azel_ref(v, i)
            ga, ge = np.asarray(G['azimuth[%d]' % i], float), np.asarray(G['elevation[%d]' % i], float)
            if strict:
                out['azimuth[%d]' % i] = mod_close(ga, a, 360, 5e-5 / np.maximum(hor, 1e-3)) | (hor < 1e-3)
                out['azimuth[%d] outside [0, 360]' % i] = (ga >= 0) & (ga <= 360) | (hor < 1e-6)
            else:
                out['azimuth[%d] finite' % i] = np.isfinite(ga)
            out['elevation[%d]' % i] = np.abs(ge - e) < 5e-5
            out['elevation[%d] finite' % i] = np.isfinite(ge)
        for l in ('azimuth', 'elevation'):
            out[l + '.shape'] = np.array([s == '(%d,)' % n for s in G[l + '.shape']])
        return out
    return rel


@guarded
def c05(ctx):
    k = K(ctx)
    for unit, n in [('km', 2), ('m', 1), ('km', 3)] + [('km', n) for n in ctx.wide()]:
        S, q = site_syms(n=n)

        def build(S):
            out = {}
            loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
            p = convert(ctx, frame(ctx, k, 'ITRS', [2451545.0] * n, [[T.div(x, LEN[unit]) for x in c] for c in q], unit), 'AzEl', loc)
            cols(ctx, out, k, p, ('azimuth', 'elevation'), 'deg')
            out['location'] = ctx.get(p, 'location') == loc
            out['unit'] = ctx.str(ctx.get(ctx.get(p, 'azimuth'), 'unit'))
            return out
        ctx.case('ITRS->AzEl %s batch of %d' % (unit, n), build, lambda v: {'location': True}, rel=azel_rel(n), S=S, n=300, where=TR)
    # on the meridian, on the horizon plane, in every quadrant
    for nm, az in (('north', 0), ('east', 90), ('south', 180), ('west', 270), ('north-east', 45), ('south-west', 225)):
        S, q = site_syms(80, 1)
        S.f('el', -85, 85)
        S.f('d', 100, 30000)

        def post(v, az=az):
            f = lambda x: np.asarray(v[x], float)
            g, e, n, u = enu(f('la'), f('lo'), f('h'))
            ce, se = np.cos(f('el') * RAD)[:, None], np.sin(f('el') * RAD)[:, None]
            p = g + f('d')[:, None] * (ce * (np.sin(az * RAD) * e + np.cos(az * RAD) * n) + se * u)
            for c, l in enumerate('xyz'):
                v[l + '0'] = p[:, c]
            return v
        S.post = post

        def build(S):
            out = {}
            loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
            p = convert(ctx, frame(ctx, k, 'ITRS', [2451545.0], q, 'km'), 'AzEl', loc)
            cols(ctx, out, k, p, ('azimuth', 'elevation'), 'deg')
            return out
        ctx.case('due ' + nm, build, lambda v: {}, rel=azel_rel(1), S=S, n=150, where=TR)
    return ctx.finish('other', RULE, 6)


@guarded
def c06(ctx):
    """Aligned geometry."""
    k = K(ctx)
    for nm, lo, hi in (('overhead', 0.01, 5.0), ('below', -0.9, -0.01)):
        S, q = site_syms(89.9, 2)
        S.f('m0', lo, hi)
        S.f('m1', lo, hi)

        def post(v):
            g = R.wgs2itrs(np.asarray(v['la'], float) * RAD, np.asarray(v['lo'], float) * RAD, np.asarray(v['h'], float))
            for c, l in enumerate('xyz'):
                for i in (0, 1):
                    v['%s%d' % (l, i)] = g[:, c] * (1 + np.asarray(v['m%d' % i], float))
            return v
        S.post = post

        def build(S):
            out = {}
            loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
            p = frame(ctx, k, 'ITRS', [2451545.0] * 2, q, 'km')
            r = convert(ctx, p, 'AzEl', loc)
            cols(ctx, out, k, r, ('azimuth', 'elevation'), 'deg')
            sat = ctx.call(ctx.name('celest.satellite.Satellite'), p)
            ctx.put(out, 'look', k.to(ctx.meth(sat, 'look_angle', loc), 'deg'))
            ctx.put(out, 'dist', k.to(ctx.meth(sat, 'distance', loc), 'km'))
            return out

        def rel(v, G, p, sgn=1 if lo > 0 else -1):
            if '!raise' in G:
                return None
            out = {}
            for i in (0, 1):
                e, l, d = [np.asarray(G['%s[%d]' % (q_, i)], float) for q_ in ('elevation', 'look', 'dist')]
                out['elevation[%d]' % i] = np.abs(e - 90 * sgn) < 1e-4
                out['look angle[%d]' % i] = np.abs(l - (0 if sgn > 0 else 180)) < 1e-4
                g = np.linalg.norm(R.wgs2itrs(v.la * RAD, v.lo * RAD, v.h), axis=-1)
                out['distance[%d]' % i] = np.abs(d - g * np.abs(v['m%d' % i])) < 1e-6
            return out
        ctx.case('satellite %s' % nm, build, lambda v: {}, rel=rel, S=S, n=300, edges='exact', where=TR)
    # finite everywhere on the special directions
    S = Syms()
    S.f('la', -89.9, 89.9, special=[0.0]), S.f('lo', -180, 180, special=[0.0, 90.0, -90.0, 180.0]), S.f('h', 0, 5, special=[0.0])
    q = [[S.one_of('x0', [0.0, 7000.0, -7000.0, 42164.0])], [S.one_of('y0', [0.0, 7000.0, -7000.0])], [S.one_of('z0', [7000.0, -7000.0, 7500.0])]]

    def build(S):
        out = {}
        loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
        p = frame(ctx, k, 'ITRS', [2451545.0], q, 'km')
        cols(ctx, out, k, convert(ctx, p, 'AzEl', loc), ('azimuth', 'elevation'), 'deg')
        w = convert(ctx, p, 'WGS84')
        cols(ctx, out, k, w, ('latitude', 'longitude'), 'deg')
        ctx.put(out, 'height', k.to(ctx.get(w, 'height'), 'km'))
        g = convert(ctx, p, 'GCRS')
        cols(ctx, out, k, g, 'xyz', 'km')
        return out

    def rel(v, G, p):
        if '!raise' in G:
            return None
        return {l: np.isfinite(np.asarray(x, float)) for l, x in G.items() if not l.endswith('shape') and not l.startswith('!')}
    ctx.case('axis-aligned positions', build, lambda v: {}, rel=rel, S=S, n=400, edges='exact', where=TR)
    return ctx.finish('other', RULE, 2)


FRAMES = ('GCRS', 'ITRS', 'WGS84')


def mkframe(ctx, k, src, S, n=2):
    j = js(S, n)
    if src == 'WGS84':
        q = [[S.f('la%d' % i, -80, 80) for i in range(n)], [S.f('lo%d' % i, -179, 179) for i in range(n)], [S.f('h%d' % i, 0, 5000) for i in range(n)]]
        return frame(ctx, k, 'WGS84', j, q, 'deg', 'km')
    q = [[S.f('%s%d' % (c, i), 3000, 9000) for i in range(n)] for c in 'xyz']
    return frame(ctx, k, src, j, q, 'km')


ATTRS = {'GCRS': ('x', 'y', 'z'), 'ITRS': ('x', 'y', 'z'), 'WGS84': ('latitude', 'longitude', 'height'), 'AzEl': ('azimuth', 'elevation'),
         'LVLH': ('x', 'y', 'z'), 'Attitude': ('roll', 'pitch', 'yaw')}


def unit_of(a):
    return 'km' if a in ('x', 'y', 'z', 'height') else 'deg'


@guarded
def c07(ctx):
    k = K(ctx)
    W = 'celest/coordinates/coordinate.py'
    for src in FRAMES:
        for dst, given in [(d, 0) for d in FRAMES + ('AzEl',)] + [(d, 1) for d in FRAMES]:
            S = Syms()

            def build(S):
                p = mkframe(ctx, k, src, S)
                loc = location(ctx, k, 43.0, -79.0, 0.1) if dst == 'AzEl' or given else None
                r = convert(ctx, p, dst, loc)
                out = {'class': ctx.cls(r)}
                if src == dst:
                    out['same object'] = r == p
                # the same through the ITRS
                itrs = p if src == 'ITRS' else convert(ctx, p, 'ITRS')
                r2 = itrs if dst == 'ITRS' else p if src == dst else convert(ctx, itrs, dst, loc)
                for a in ATTRS[dst]:
                    x, y = [ctx.vals(k.to(ctx.get(o, a), unit_of(a)))[1] for o in (r, r2)]
                    for i in (0, 1):
                        out['%s%d' % (a, i)] = T.sub(x[i], y[i])
                ctx.put(out, 'time', k.to(ctx.get(r, 'time'), 'jd2000'))
                return out

            def ref(v):
                o = {'class': dst}
                if src == dst:
                    o['same object'] = True
                for a in ATTRS[dst]:
                    for i in (0, 1):
                        o['%s%d' % (a, i)] = 0 * v.j0
                ctx.expect(o, 'time', np.stack([v.j0, v.j1], -1))
                return o
            ctx.case('%s->%s%s' % (src, dst, ' with a location' if given else ''), build, ref, S=S, n=40, rtol=0, atol=1e-6, where=W)
        S = Syms()

        def build(S):
            convert(ctx, mkframe(ctx, k, src, S), 'AzEl')
            return {}
        ctx.case('%s->AzEl without a location' % src, build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=W)
    for src in ('AzEl', 'LVLH', 'Attitude', 'number'):
        S = Syms()

        def build(S):
            loc = location(ctx, k, 43.0, -79.0, 0.1)
            a, b, c = [S.f(x, 0, 50) for x in 'abc']
            p = {'AzEl': lambda: frame_loc(ctx, k, 'AzEl', [2451545.0], [[a], [b]], 'deg', loc),
                 'Attitude': lambda: frame_loc(ctx, k, 'Attitude', [2451545.0], [[a], [b], [c]], 'deg', loc),
                 'LVLH': lambda: frame(ctx, k, 'LVLH', [2451545.0], [[a], [b], [c]], 'km'), 'number': lambda: 5.0}[src]()
            ctx.call(ctx.name(C + 'coordinate.Coordinate'), p)
            return {}
        ctx.case('Coordinate(%s) rejected' % src, build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=W)
    return ctx.finish('other', RULE, 10)


def frame_loc(ctx, k, name, j, q, unit, loc):
    mod = {'AzEl': 'azel', 'Attitude': 'attitude'}[name]
    return ctx.call(ctx.name(FR + mod + '.' + name), ctx.arr(list(j)), *([ctx.arr(list(c)) for c in q] + [k.unit(unit), loc]))


@guarded
def c08(ctx):
    k = K(ctx)
    for name, attrs in ATTRS.items():
        W = 'celest/coordinates/frames/%s.py' % {'GCRS': 'gcrs', 'ITRS': 'itrs', 'WGS84': 'wgs84', 'AzEl': 'azel', 'LVLH': 'lvlh', 'Attitude': 'attitude'}[name]
        m = len(attrs)

        def make(j, q):
            if name in ('AzEl', 'Attitude'):
                loc = location(ctx, k, 43.0, -79.0, 0.1)
                return frame_loc(ctx, k, name, j, q, 'rad' if name == 'AzEl' else 'deg', loc), loc
            if name == 'WGS84':
                return frame(ctx, k, name, j, q, 'rad', 'm'), None
            return frame(ctx, k, name, j, q, 'm'), None
        U = {'AzEl': ['rad'] * 2, 'Attitude': ['deg'] * 3, 'WGS84': ['rad', 'rad', 'm']}.get(name, ['m'] * 3)
        for n in [1, 2, 3] + ctx.wide():
            S = Syms(n)
            j = js(S, n)
            q = [[S.f('q%d_%d' % (c, i), -5, 5) for i in range(n)] for c in range(m)]

            def build(S):
                p, loc = make(j, q)
                out = {}
                for a, un in zip(attrs, U):
                    z = ctx.get(p, a)
                    ctx.put(out, a, ctx.get(z, 'data'))
                    out[a + ' unit'] = ctx.str(ctx.get(z, 'unit'))
                ctx.put(out, 'time', ctx.get(ctx.get(p, 'time'), 'data'))
                out['time unit'] = ctx.str(ctx.get(ctx.get(p, 'time'), 'unit'))
                if loc is not None:
                    out['location'] = ctx.get(p, 'location') == loc
                return out

            def ref(v):
                o = {'time unit': 'jd2000'}
                ctx.expect(o, 'time', np.stack([v['j%d' % i] for i in range(n)], -1))
                for c, (a, un) in enumerate(zip(attrs, U)):
                    o[a + ' unit'] = un
                    ctx.expect(o, a, np.stack([v['q%d_%d' % (c, i)] for i in range(n)], -1))
                if name in ('AzEl', 'Attitude'):
                    o['location'] = True
                return o
            ctx.case('%s fields, %d entries' % (name, n), build, ref, S=S, n=30, rtol=0, atol=0, where=W)
            if name != 'WGS84':
                for un in (('deg', 'rad') if name in ('AzEl', 'Attitude') else ('km', 'm', 'mi')):
                    def build(S):
                        p, loc = make(j, q)
                        out = {}
                        ctx.put(out, 'a', ctx.meth(p, 'to_numpy', k.unit(un)))
                        return out

                    def ref(v):
                        o = {}
                        s = (LEN[U[0]] / LEN[un]) if un in LEN else ANG[U[0]] / ANG[un]
                        ctx.expect(o, 'a', s * np.stack([np.stack([v['q%d_%d' % (c, i)] for c in range(m)], -1) for i in range(n)], 1))
                        return o
                    ctx.case('%s.to_numpy(%s), %d entries' % (name, un, n), build, ref, S=S, n=30, rtol=1e-12, atol=0, where='celest/coordinates/frames/base_positions.py')
        # shape validation: every combination of lengths
        import itertools
        for ls in itertools.product((1, 2), repeat=m + 1):
            S = Syms()

            def build(S):
                make([2451545.0] * ls[0], [[S.f('a', -1, 1)] * x for x in ls[1:]])
                return {'made': True}
            ok = len(set(ls)) == 1
            ctx.case('%s lengths %s' % (name, ls), build, lambda v: {'made': True} if ok else {'!raise': True, '!exc': ['ValueError']}, S=S, n=3, where=W)
        for bad in range(m + 1):
            S = Syms()

            def build(S):
                mod = {'GCRS': 'gcrs', 'ITRS': 'itrs', 'WGS84': 'wgs84', 'AzEl': 'azel', 'LVLH': 'lvlh', 'Attitude': 'attitude'}[name]
                a = [ctx.arr([[1.0], [2.0]]) if i == bad else ctx.arr([1.0, 2.0]) for i in range(m + 1)]
                tail = {'AzEl': lambda: [k.unit('deg'), location(ctx, k, 43.0, -79.0, 0.1)], 'Attitude': lambda: [k.unit('deg'), location(ctx, k, 43.0, -79.0, 0.1)],
                        'WGS84': lambda: [k.unit('deg'), k.unit('km')]}.get(name, lambda: [k.unit('km')])()
                ctx.call(ctx.name(FR + mod + '.' + name), *(a + tail))
                return {}
            ctx.case('%s argument %d two-dimensional' % (name, bad), build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=3, where=W)
    return ctx.finish('other', RULE, 60)


@guarded
def c09(ctx):
    """No conversion changes its input; results do not share storage with it."""
    k = K(ctx)
    for src, dst, un in [(s, d, i) for s in FRAMES for d in FRAMES + ('AzEl',) for i in range(3)]:
        if src == dst:
            continue
        S = Syms()
        ul, ua = ('km', 'm', 'mi')[un], ('deg', 'rad', 'arcmin')[un]
        lim = (-80, 80) if un != 1 else (-1.5, 1.5)

        def build(S):
            j = js(S, 2)
            nm = ATTRS[src]
            q = [[S.f('%s%d' % (c, i), *((3000, 9000) if src != 'WGS84' else lim)) for i in (0, 1)] for c in nm]
            arrs = [ctx.arr(j)] + [ctx.arr(c) for c in q]
            units = [k.unit(ua), k.unit(ul)] if src == 'WGS84' else [k.unit(ul)]
            p = ctx.call(ctx.name(FR + src.lower() + '.' + src), *(arrs + units))
            loc = location(ctx, k, 43.0, -79.0, 0.1) if dst == 'AzEl' else None
            r = convert(ctx, p, dst, loc)
            convert(ctx, p, dst, loc)
            out = {}
            for l, a in zip(('time',) + nm, arrs):
                ctx.put(out, l, a)
                ctx.put(out, l + ' field', ctx.get(ctx.get(p, l), 'data'))
                out[l + ' unit'] = ctx.str(ctx.get(ctx.get(p, l), 'unit'))
            ctx.put(out, 'result time', k.to(ctx.get(r, 'time'), 'jd2000'))
            shared = False
            for a in ATTRS[dst]:
                d = ctx.get(ctx.get(r, a), 'data')
                shared = shared or any(ctx.buf(d) == ctx.buf(x) for x in arrs)
            out['shares storage'] = shared
            if loc is not None:
                ctx.put(out, 'loc', k.to(ctx.get(loc, 'latitude'), 'deg'))
            return out

        def ref(v):
            o = {'shares storage': False}
            st = lambda l: np.stack([v[l + '0'], v[l + '1']], -1)
            for l in ('time',) + ATTRS[src]:
                for q in ('', ' field'):
                    ctx.expect(o, l + q, st('j' if l == 'time' else l))
                o[l + ' unit'] = 'jd2000' if l == 'time' else ua if l in ('latitude', 'longitude') else ul
            ctx.expect(o, 'result time', st('j'))
            if dst == 'AzEl':
                ctx.expect(o, 'loc', 43.0 + 0 * v.j0)
            return o
        ctx.case('%s->%s from %s' % (src, dst, ul), build, ref, S=S, n=25, rtol=0, atol=0, where=TR)
    # satellites
    for m in ('altitude', 'distance', 'look_angle', 'attitude', 'save'):
        S = Syms()

        def build(S):
            j = js(S, 2)
            q = [ctx.arr([S.f('%s%d' % (c, i), 5000, 9000) for i in (0, 1)]) for c in 'xyz']
            w = [ctx.arr([S.f('v%s%d' % (c, i), -8, 8) for i in (0, 1)]) for c in 'xyz']
            I = ctx.name(FR + 'itrs.ITRS')
            ja = ctx.arr(j)
            sat = ctx.call(ctx.name('celest.satellite.Satellite'), ctx.call(I, ja, *(q + [k.unit('km')])),
                           ctx.call(I, ja, *(w + [k.unit(('/', 'km', 's'))])))
            loc = location(ctx, k, 43.0, -79.0, 0.1)
            r = None
            for rep in (0, 1):
                if m == 'altitude':
                    r = ctx.meth(sat, m)
                elif m == 'save':
                    ctx.meth(sat, 'save_text_file', 'out')
                else:
                    r = ctx.meth(sat, m, loc)
            out = {}
            rs = [] if r is None else [r] if m != 'attitude' else [ctx.get(r, a) for a in ('roll', 'pitch', 'yaw')]
            out['shares storage'] = any(ctx.buf(ctx.get(d, 'data')) == ctx.buf(x) for d in rs for x in [ja] + q + w)
            ctx.put(out, 'j', ja)
            for c, a, b in zip('xyz', q, w):
                ctx.put(out, c, a)
                ctx.put(out, 'v' + c, b)
            return out

        def ref(v):
            o = {'shares storage': False}
            for l in ['j'] + list('xyz') + ['vx', 'vy', 'vz']:
                ctx.expect(o, l, np.stack([v[l + '0'], v[l + '1']], -1))
            return o
        ctx.case('Satellite.%s' % m, build, ref, S=S, n=25, rtol=0, atol=0, where='celest/satellite.py')
    return ctx.finish('other', RULE, 8)


def lvlh_frame(r, w):
    z = -r / np.linalg.norm(r, axis=-1, keepdims=True)
    h = np.cross(r, w)
    y = -h / np.linalg.norm(h, axis=-1, keepdims=True)
    return np.stack([np.cross(y, z), y, z], -2)


@guarded
def c10(ctx):
    k = K(ctx)
    for n in [1, 2, 3] + ctx.wide():
        S = Syms(n)
        j = js(S, n)
        q, w = xyz(S, n), [[S.f('v%s%d' % (c, i), -8, 8) for i in range(n)] for c in 'xyz']

        def build(S):
            p = frame(ctx, k, 'GCRS', j, q, 'km')
            vel = frame(ctx, k, 'GCRS', j, w, ('/', 'm', 's') if n == 2 else ('/', 'km', 'hr') if n == 3 else ('/', 'km', 's'))
            a, b = ctx.I.libs.iterate(ctx.I, ctx.call(ctx.name(C + 'transforms._gcrs_to_lvlh'), p, vel))
            out = {'class': ctx.cls(a) + ctx.cls(b)}
            cols(ctx, out, k, a, 'xyz', 'km')
            ctx.put(out, 'time', k.to(ctx.get(a, 'time'), 'jd2000'))
            for c in 'xyz':
                ctx.put(out, 'v' + c, k.to(ctx.get(b, c), ('/', 'm', 's')))
            return out

        def ref(v):
            o = {'class': 'LVLHLVLH'}
            ctx.expect(o, 'time', np.stack([v['j%d' % i] for i in range(n)], -1))
            r, w = vec(v, n), vec(v, n, ('vx', 'vy', 'vz'))
            M = lvlh_frame(r, w)
            a, b = matmul(M, r), matmul(M, w)
            for c, l in enumerate('xyz'):
                ctx.expect(o, l, a[:, :, c])
                ctx.expect(o, 'v' + l, {2: 1, 3: 1 / 3.6}.get(n, 1000) * b[:, :, c])
            return o
        ctx.case('LVLH batch of %d' % n, build, ref, S=S, n=200, rtol=0, atol=1e-6, where=TR)
    for bad in (0, 1):
        S = Syms()

        def build(S):
            q = [[S.f(c, 1, 9)] for c in 'xyz']
            a = [frame(ctx, k, 'ITRS' if i == bad else 'GCRS', [2451545.0], q, 'km') for i in (0, 1)]
            ctx.call(ctx.name(C + 'transforms._gcrs_to_lvlh'), *a)
            return {}
        ctx.case('argument %d not GCRS' % bad, build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=TR)
    return ctx.finish('other', RULE, 3)


# ------------------------------------------------------------------ satellites
SAT = 'celest.satellite.Satellite'
WS = 'celest/satellite.py'


@guarded
def s01(ctx):
    k = K(ctx)
    for unit, n in [('km', 2), ('m', 1), ('km', 3)] + [('km', n) for n in ctx.wide()]:
        S, q = site_syms(n=n)

        def build(S):
            loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
            p = frame(ctx, k, 'ITRS', [2451545.0] * n, [[T.div(x, LEN[unit]) for x in c] for c in q], unit)
            sat = ctx.call(ctx.name(SAT), p)
            out = {}
            ctx.put(out, 'look', k.to(ctx.meth(sat, 'look_angle', loc), 'deg'))
            ctx.put(out, 'dist', k.to(ctx.meth(sat, 'distance', loc), 'km'))
            return out

        def ref(v):
            o = {}
            g = R.wgs2itrs(v.la * RAD, v.lo * RAD, v.h)[:, None]
            r = vec(v, n)
            d = r - g
            dd = np.linalg.norm(d, axis=-1)
            ctx.expect(o, 'dist', dd)
            ctx.expect(o, 'look', np.degrees(np.arctan2(np.linalg.norm(np.cross(d, r), axis=-1), (d * r).sum(-1))))
            return {l: x if not l.startswith('look[') else ('tol', 5e-5, x) for l, x in o.items()}
        ctx.case('distance, look angle %s batch of %d' % (unit, n), build, ref, S=S, n=200, rtol=0, atol=1e-6, where=WS)
    for unit, n in [('km', 2), ('m', 3)] + [('km', n) for n in ctx.wide()]:
        S, la, lo, h = geo_syms(n)
        with_xyz(S, n)

        def build(S):
            q = [[T.div(S.d['%s%d' % (c, i)].term, LEN[unit]) for i in range(n)] for c in 'xyz']
            sat = ctx.call(ctx.name(SAT), frame(ctx, k, 'ITRS', [2451545.0] * n, q, unit))
            out = {}
            ctx.put(out, 'alt', k.to(ctx.meth(sat, 'altitude'), 'km'))
            return out

        def ref(v):
            o = {}
            ctx.expect(o, 'alt', np.stack([v['h%d' % i] for i in range(n)], -1))
            return o
        ctx.case('altitude %s batch of %d' % (unit, n), build, ref, S=S, n=200, rtol=0, atol=2e-4, where=WS)
    return ctx.finish('other', RULE, 3)


@guarded
def s02(ctx):
    k = K(ctx)
    for n, pu, vu in [(1, 'km', ('/', 'km', 's')), (2, 'm', ('/', 'm', 's'))] + [(n, 'km', ('/', 'km', 's')) for n in ctx.wide()]:
        S = Syms(n)
        j = js(S, n)
        S.f('la', -89, 89), S.f('lo', -180, 180), S.f('h', 0, 5)
        q = [[S.f('%s%d' % (c, i), -9000, 9000) for i in range(n)] for c in 'xyz']
        w = [[S.f('v%s%d' % (c, i), -8, 8) for i in range(n)] for c in 'xyz']

        def post(v):
            for i in range(n):
                r = np.sqrt(sum(np.asarray(v['%s%d' % (c, i)], float) ** 2 for c in 'xyz'))
                f = np.maximum(1.0, 6800 / np.maximum(r, 1))
                for c in 'xyz':
                    v['%s%d' % (c, i)] = np.asarray(v['%s%d' % (c, i)], float) * f
            return v
        S.post = post

        def build(S):
            f = 1 if pu == 'km' else 1000
            sat = ctx.call(ctx.name(SAT), frame(ctx, k, 'ITRS', j, [[T.mul(f, x) for x in c] for c in q], pu),
                           frame(ctx, k, 'ITRS', j, [[T.mul(f, x) for x in c] for c in w], vu))
            loc = location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)
            a = ctx.meth(sat, 'attitude', loc)
            out = {'class': ctx.cls(a), 'location': ctx.get(a, 'location') == loc}
            cols(ctx, out, k, a, ('roll', 'pitch', 'yaw'), 'rad')
            ctx.put(out, 'time', k.to(ctx.get(a, 'time'), 'jd2000'))
            gast_out(ctx, k, out, j)
            return out

        def ref(v):
            o = {'class': 'Attitude', 'location': True}
            ctx.expect(o, 'time', np.stack([v['j%d' % i] for i in range(n)], -1))
            return o

        def rel(v, G, p):
            if '!raise' in G:
                return None
            out = {}
            gr = R.wgs2itrs(v.la * RAD, v.lo * RAD, v.h)
            for i in range(n):
                M = np.swapaxes(rotation(v['j%d' % i], np.asarray(G['gast[%d]' % i], float)), -1, -2)
                r, vel = matmul(M, vec(v, n)[:, i]), matmul(M, vec(v, n, ('vx', 'vy', 'vz'))[:, i])
                L = lvlh_frame(r, vel)
                g = matmul(L, matmul(M, gr) - r)
                g /= np.linalg.norm(g, axis=-1, keepdims=True)
                a, b, c = [np.asarray(G['%s[%d]' % (l, i)], float) for l in ('roll', 'pitch', 'yaw')]
                ok = g[:, 2] < -0.99999
                out['nadir does not reach the ground direction[%d]' % i] = ok | (np.abs(-np.cos(a) * np.sin(b) - g[:, 0]) + np.abs(np.sin(a) - g[:, 1]) + np.abs(np.cos(a) * np.cos(b) - g[:, 2]) < 1e-5)
                y = np.arctan2(-g[:, 0] * g[:, 1], 1 + g[:, 2] - g[:, 1] ** 2)
                out['yaw[%d]' % i] = ok | mod_close(c, y, 2 * np.pi, 1e-4) | (np.hypot(g[:, 0] * g[:, 1], 1 + g[:, 2] - g[:, 1] ** 2) < 1e-3)
            return out
        ctx.case('attitude batch of %d' % n, build, ref, rel=rel, S=S, n=150, rtol=0, atol=1e-9, where=WS)
    return ctx.finish('other', RULE + ' Reference: the shortest rotation from nadir to the ground direction in the LVLH frame.', 1)


@guarded
def s03(ctx):
    k = K(ctx)
    S = Syms()
    j, q = js(S), xyz(S)
    w = [[S.f('v%s%d' % (c, i), -8, 8) for i in (0, 1)] for c in 'xyz']
    VU = ('/', 'km', 's')
    for fp in ('ITRS', 'GCRS'):
        for fv in ('ITRS', 'GCRS', None):
            def build(S):
                p = frame(ctx, k, fp, j, q, 'km')
                vel = frame(ctx, k, fv, j, w, VU) if fv else None
                s = ctx.call(ctx.name(SAT), p, vel) if fv else ctx.call(ctx.name(SAT), p)
                out = {}
                P = ctx.get(s, 'position')
                out['position class'] = ctx.cls(P)
                cols(ctx, out, k, P, 'xyz', 'km')
                ctx.put(out, 'time', k.to(ctx.get(P, 'time'), 'jd2000'))
                Vv = ctx.get(s, 'velocity')
                if fv:
                    out['velocity class'] = ctx.cls(Vv)
                    for c in 'xyz':
                        ctx.put(out, 'v' + c, k.to(ctx.get(Vv, c), VU))
                    ctx.put(out, 'vtime', k.to(ctx.get(Vv, 'time'), 'jd2000'))
                else:
                    out['no velocity'] = Vv is None
                gast_out(ctx, k, out, j)
                return out

            def ref(v):
                o = {'position class': 'ITRS'}
                tt = np.stack([v.j0, v.j1], -1)
                ctx.expect(o, 'time', tt)
                if fv:
                    o['velocity class'] = 'ITRS'
                    ctx.expect(o, 'vtime', tt)
                else:
                    o['no velocity'] = True
                return o

            def rel(v, G, p):
                if '!raise' in G:
                    return None
                out = {}
                for pre, f in (('', fp), ('v', fv)):
                    if f is None:
                        continue
                    r = vec(v, 2, [pre + c for c in 'xyz'])
                    if f == 'GCRS':
                        r = np.stack([matmul(rotation(v['j%d' % i], np.asarray(G['gast[%d]' % i], float)), r[:, i]) for i in (0, 1)], 1)
                    for c, l in enumerate('xyz'):
                        for i in (0, 1):
                            out['%s%s[%d]' % (pre, l, i)] = np.abs(np.asarray(G['%s%s[%d]' % (pre, l, i)], float) - r[:, i, c]) < 1e-6
                return out
            ctx.case('Satellite(%s, %s)' % (fp, fv), build, ref, rel=rel, S=S, n=60, rtol=0, atol=1e-9, where=WS)
    for what in ('position', 'velocity'):
        for bad in ('WGS84', 'LVLH', 'array'):
            def build(S):
                x = {'WGS84': lambda: frame(ctx, k, 'WGS84', j, [[1.0, 2.0]] * 3, 'deg', 'km'), 'LVLH': lambda: frame(ctx, k, 'LVLH', j, q, 'km'),
                     'array': lambda: ctx.arr([[1.0, 2.0, 3.0]])}[bad]()
                if what == 'position':
                    ctx.call(ctx.name(SAT), x)
                else:
                    ctx.call(ctx.name(SAT), frame(ctx, k, 'ITRS', j, q, 'km'), x)
                return {}
            ctx.case('%s %s rejected' % (bad, what), build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=WS)

    def build(S):
        s = ctx.call(ctx.name(SAT), frame(ctx, k, 'ITRS', j, q, 'km'))
        ctx.meth(s, 'attitude', location(ctx, k, 43.0, -79.0, 0.1))
        return {}
    ctx.case('attitude without velocity rejected', build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=5, where=WS)
    return ctx.finish('other', RULE, 7)
