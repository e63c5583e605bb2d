"""Encounters: visible time windows and their collections."""
import numpy as np
from sa.harness import Syms, V
from sa import terms as T
from sa.values import SliceV
from sa.interp import RaiseEx
from .units import K, guarded, RULE
from .coords import frame, location, convert, xyz, vec, cols, RAD, matmul, rotation, gast_out
from .files import text_of, opened, protocol, parse, header_problem, check_values, by_value
from . import refs as R

WG = 'celest/encounter/window_generator.py'
WH = 'celest/encounter/window_handling.py'
GEN = 'celest.encounter.window_generator.'
HAN = 'celest.encounter.window_handling.'
VU = ('/', 'km', 's')


def runs(vis):
    """Maximal runs of True: list of (first, last)."""
    out = []
    for i, x in enumerate(vis):
        if x:
            if out and out[-1][1] == i - 1:
                out[-1] = (out[-1][0], i)
            else:
                out.append((i, i))
    return out


def sky(S, n, sun=False):
    """Inputs: a site, n satellite samples scattered over the sky around and below the horizon, increasing times."""
    S.f('la', -75, 75), S.f('lo', -179, 179), S.f('h', 0, 3)
    S.f('j0', 2450000.0, 2460000.0)
    for i in range(n):
        if i:
            S.f('dt%d' % i, 1e-4, 2e-3)
            S.f('j%d' % i, 0, 1)
        S.one_of('up%d' % i, [1.0, 1.0, -1.0])
        for c in 'xyz':
            S.f('d%s%d' % (c, i), -1, 1)
            S.f('%s%d' % (c, i), -1, 1)
            S.f('v%s%d' % (c, i), -8, 8)
            if sun:
                for b, r in (('s', 1.5e8), ('e', 1e8), ('m', 1e8)):
                    S.f('%s%s%d' % (b, c, i), -r, r)
    S.f('th', 0, 60, special=[0.0, 5.0, 30.0, 60.0])

    def post(v):
        g = R.wgs2itrs(np.asarray(v['la'], float) * RAD, np.asarray(v['lo'], float) * RAD, np.asarray(v['h'], float))
        u = g / np.linalg.norm(g, axis=-1, keepdims=True)
        j = np.asarray(v['j0'], float)
        for i in range(n):
            if i:
                j = j + np.asarray(v['dt%d' % i], float)
                v['j%d' % i] = j
            d = np.stack([np.asarray(v['d%s%d' % (c, i)], float) for c in 'xyz'], -1)
            up = np.asarray(v['up%d' % i], float)[:, None]
            p = g * np.where(up > 0, 1.12, -1.1) + d * 1500
            for q, c in enumerate('xyz'):
                v['%s%d' % (c, i)] = p[:, q]
        return v
    S.post = post
    return [S.d['j%d' % i].term for i in range(n)]


def satellite(ctx, k, S, j, n, vel=True):
    p = frame(ctx, k, 'ITRS', j, [[S.d['%s%d' % (c, i)].term for i in range(n)] for c in 'xyz'], 'km')
    a = [p]
    if vel:
        a.append(frame(ctx, k, 'ITRS', j, [[S.d['v%s%d' % (c, i)].term for i in range(n)] for c in 'xyz'], VU))
    return p, ctx.call(ctx.name('celest.satellite.Satellite'), *a)


def site(ctx, k, S):
    return location(ctx, k, S.d['la'].term, S.d['lo'].term, S.d['h'].term)


SEG = {(0, 10): 's', (0, 3): 'e', (3, 399): 'm'}


def ephemeris(ctx, S, n, dates=None, known=None):
    """Model of the ephemeris: Sun, Earth-Moon barycentre and Earth, one vector per date.

    With constant dates only the vectors of the middle one are unknown."""
    def compute(I, key, t):
        sh, xs = ctx.vals(t)
        key = tuple(int(x) for x in key)
        neg = key not in SEG and key[::-1] in SEG
        b = SEG.get(key) or SEG.get(key[::-1])
        if b is None:
            I.throw('KeyError', 'no such segment')
        if dates:
            mid = dates[n // 2]
            vecs = [[S.d['%s%s%d' % (b, c, n // 2)].term if x == mid else float(known(b, c, x)) for x in xs] for c in 'xyz']
        jd = [S.d['j%d' % i].term for i in range(n)]
        pos = [next((i for i, q in enumerate(jd) if q is x), None) for x in xs]
        if dates:
            pass
        elif None in pos:
            # a date that is not literally one of the given ones: the vector of the given date it is equal to, else an unrelated one
            def vec(b, c, x):
                r = T.mul(1e8, T.sin(T.add(T.mul(1e4, x), 'xyz'.index(c) + 5 * 'sem'.index(b))))
                for i in range(n):
                    r = T.ite(T.lt(T.absv(T.sub(x, jd[i])), 1e-8), S.d['%s%s%d' % (b, c, i)].term, r)
                return r
            vecs = [[vec(b, c, x) for x in xs] for c in 'xyz']
        else:
            vecs = [[S.d['%s%s%d' % (b, c, i)].term for i in pos] for c in 'xyz']
        if neg:
            vecs = [[T.neg(x) for x in r] for r in vecs]
        if sh == ():
            return I.newarr([r[0] for r in vecs], (3,), 'f')
        return I.newarr([x for r in vecs for x in r], (3, len(xs)), 'f')
    ctx.I.hooks['spk.compute'] = compute


def window_outputs(ctx, k, out, w):
    I = ctx.I
    ws = I.libs.iterate(I, w)
    ws = list(ws)
    out['class'] = ctx.cls(w)
    out['count'] = len(ws)
    out['len'] = I.libs.len_(I, w)
    for i, x in enumerate(ws):
        out['kind%d' % i] = ctx.cls(x)
        for a in ('rise_time', 'set_time'):
            sh, xs = ctx.vals(k.to(ctx.get(x, a), 'jd2000'))
            out['%s%d.shape' % (a, i)] = str(sh)
            out['%s%d' % (a, i)] = xs[0]
    return ws


def expect_windows(v, G, lit, n):
    """Relations: the windows are the maximal runs of visible, lit samples."""
    e = np.stack([np.asarray(G['e[%d]' % i], float) for i in range(n)], -1)
    J = np.stack([v['j%d' % i] for i in range(n)], -1)
    vis = (e > v.th[:, None]) & lit
    N = len(vis)
    cnt = np.zeros(N, bool)
    rise, sets = np.ones(N, bool), np.ones(N, bool)
    for a in range(N):
        rs = runs(vis[a])
        c = G['count'][a] if np.ndim(G['count']) else G['count']
        cnt[a] = c == len(rs)
        if cnt[a]:
            for q, (f, l) in enumerate(rs):
                rise[a] &= abs(float(np.broadcast_to(G['rise_time%d' % q], (N,))[a]) - J[a, max(f - 1, 0)]) < 1e-9
                sets[a] &= abs(float(np.broadcast_to(G['set_time%d' % q], (N,))[a]) - J[a, l]) < 1e-9
    return {'one window per maximal run': cnt, 'rise time is the sample before the run': rise, 'set time is the last sample of the run': sets}


@guarded
def e01(ctx):
    k = K(ctx)
    for n in (1, 3, 4) + ((5,) if ctx.deep else ()):
        S = Syms()
        j = sky(S, n)

        def build(S):
            p, sat = satellite(ctx, k, S, j, n)
            loc = site(ctx, k, S)
            w = ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, S.d['th'].term)
            out = {}
            window_outputs(ctx, k, out, w)
            ctx.put(out, 'e', k.to(ctx.get(convert(ctx, p, 'AzEl', loc), 'elevation'), 'deg'))
            return out

        def rel(v, G, p):
            if '!raise' in G:
                return None
            return expect_windows(v, G, np.ones((len(v.th), n), bool), n)
        ctx.case('%d samples' % n, build, lambda v: {'class': 'WindowCollection'}, rel=rel, S=S, n=200, where=WG)
    for n in ctx.wide(most=500):
        # long batches: three kinds of samples in long and in short runs, at known dates
        S = Syms()
        sky(S, 3)
        kinds = [0] * (n // 3) + [1] * (n // 5) + [(i * 2654435761 >> 7) % 3 for i in range(n - n // 3 - n // 5)]
        dates = [2459000.5 + i / 1024 for i in range(n)]

        def build(S, n=n, kinds=kinds, dates=dates):
            p, v = [frame(ctx, k, 'ITRS', dates, [[S.d['%s%s%d' % (a, c, i)].term for i in kinds] for c in 'xyz'], u) for a, u in (('', 'km'), ('v', VU))]
            loc = site(ctx, k, S)
            sat = ctx.call(ctx.name('celest.satellite.Satellite'), p, v)
            out = {}
            window_outputs(ctx, k, out, ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, S.d['th'].term))
            sh, e = ctx.vals(k.to(ctx.get(convert(ctx, p, 'AzEl', loc), 'elevation'), 'deg'))
            out['samples'] = len(e)
            for i in range(3) if len(e) == n else ():
                out['e[%d]' % i] = e[kinds.index(i)]
            return out

        def rel(v, G, p, n=n, kinds=kinds, dates=dates):
            if '!raise' in G:
                return None
            N = len(v.th)
            W = V(v)
            H = dict(G)
            for i in range(n):
                W['j%d' % i] = np.full(N, dates[i])
                H['e[%d]' % i] = np.broadcast_to(np.asarray(G['e[%d]' % kinds[i]], float), (N,))
            return expect_windows(W, H, np.ones((N, n), bool), n)
        ctx.case('%d samples' % n, build, lambda v, n=n: {'class': 'WindowCollection', 'samples': n}, rel=rel, S=S, n=60, where=WG)
    # exactly at the threshold a satellite is not visible: on the horizon with threshold 0
    S = Syms()
    S.f('up', 300, 900), S.f('ahead', 100, 900), S.f('above', 100, 900)
    for th in (0,):
        def build(S, th=th):
            loc = location(ctx, k, 0.0, 0.0, 0.0)
            x = ctx.vals(k.to(ctx.get(loc, 'itrs_x'), 'km'))[1][0]
            up, ahead, above = [S.d[a].term for a in ('up', 'ahead', 'above')]
            q = [[x, T.add(x, above), x, T.add(x, up)], [ahead, 0.0, T.neg(ahead), 0.0], [0.0] * 4]
            n = len(q[0])
            dates = [2459000.5 + i / 1024 for i in range(n)]
            sat = ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', dates, q, 'km'), frame(ctx, k, 'ITRS', dates, [[1.0] * n, [2.0] * n, [3.0] * n], VU))
            out = {}
            window_outputs(ctx, k, out, ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, th))
            return {l: x for l, x in out.items() if l == 'count'}
        ctx.case('samples exactly at the threshold of %d degrees' % th, build, lambda v: {'count': 2}, S=S, n=20, where=WG)
    S = Syms()
    j = sky(S, 2)
    for t in (0, 90, 90.0):
        def build(S, t=t):
            p, sat = satellite(ctx, k, S, j, 2)
            ctx.call(ctx.name(GEN + 'generate_vtws'), sat, site(ctx, k, S), t)
            return {}
        ctx.case('threshold %s is accepted' % t, build, lambda v: {}, S=S, n=3, where=WG)
    bad = {'negative threshold': -0.5, 'threshold above 90': 90.5}
    for nm, t in bad.items():
        def build(S):
            p, sat = satellite(ctx, k, S, j, 2)
            ctx.call(ctx.name(GEN + 'generate_vtws'), sat, site(ctx, k, S), t)
            return {}
        ctx.case(nm, build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=3, where=WG)

    def build(S):
        p, sat = satellite(ctx, k, S, j, 2, False)
        ctx.call(ctx.name(GEN + 'generate_vtws'), sat, site(ctx, k, S), 10)
        return {}
    ctx.case('no velocity', build, lambda v: {'!raise': True, '!exc': ['Warning']}, S=S, n=3, where=WG)

    def build(S):
        p, sat = satellite(ctx, k, S, j, 2)
        ctx.call(ctx.name(GEN + 'generate_vtws'), sat, site(ctx, k, S), 10, 7)
        return {}
    ctx.case('invalid lighting', build, lambda v: {'!raise': True, '!exc': ['ValueError']}, S=S, n=3, where=WG)
    return ctx.finish('other', RULE + ' Every visibility pattern of the samples is a trace.', 6)


def sun_gcrs(v, i):
    return np.stack([v['s%s%d' % (c, i)] - v['e%s%d' % (c, i)] - v['m%s%d' % (c, i)] for c in 'xyz'], -1)


@guarded
def e02(ctx):
    k = K(ctx)
    for what in ('DAYTIME', 'NIGHTTIME'):
        for n in (2, 3) + ((4,) if ctx.deep else ()):
            S = Syms()
            j = sky(S, n, True)

            def build(S):
                ephemeris(ctx, S, n)
                p, sat = satellite(ctx, k, S, j, n)
                loc = site(ctx, k, S)
                L = ctx.get(ctx.name(GEN + 'Lighting'), what)
                w = ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, S.d['th'].term, L)
                out = {}
                window_outputs(ctx, k, out, w)
                ctx.put(out, 'e', k.to(ctx.get(convert(ctx, p, 'AzEl', loc), 'elevation'), 'deg'))
                gast_out(ctx, k, out, j)
                return out

            def rel(v, G, p):
                if '!raise' in G:
                    return None
                lit = []
                g = R.wgs2itrs(v.la * RAD, v.lo * RAD, v.h)
                up = g / np.linalg.norm(g, axis=-1, keepdims=True)
                for i in range(n):
                    s = matmul(rotation(v['j%d' % i], np.asarray(G['gast[%d]' % i], float)), sun_gcrs(v, i))
                    lit.append(((s - g) * up).sum(-1))
                lit = np.stack(lit, -1)
                ok = (np.abs(lit) > 10).all(-1)
                r = expect_windows(v, G, lit > 0 if what == 'DAYTIME' else lit < 0, n)
                return {l: x | ~ok for l, x in r.items()}
            ctx.case('%s, %d samples' % (what, n), build, lambda v: {'class': 'WindowCollection'}, rel=rel, S=S, n=200, where=WG)
    ctx.I.hooks.pop('spk.compute', None)
    return ctx.finish('other', RULE + ' The ephemeris is an uninterpreted vector per segment and date.', 2)


ROT = ('roll', 'pitch', 'yaw')


@guarded
def e03(ctx):
    """Every window carries the attitude of the satellite towards the location."""
    k = K(ctx)
    for n, others in ((1, False), (3, False), (2, True)):
        S = Syms()
        j = sky(S, n)

        def build(S):
            if others:
                # a satellite above the site, seen before from sites that share one coordinate or none; and another satellite before
                p = frame(ctx, k, 'ITRS', j, [x[:n] for x in ([980.0, 1000.0], [-5040.0, -5000.0], [4750.0, 4800.0])], 'km')
                vel = [[S.d['v%s%d' % (c, i)].term for i in range(n)] for c in 'xyz']
                sat, fixed = [ctx.call(ctx.name('celest.satellite.Satellite'), p, frame(ctx, k, 'ITRS', j, x, VU)) for x in (vel, [[1.0] * n, [2.0] * n, [3.0] * n])]
                loc = location(ctx, k, 43.0, -79.0, 0.1)
                for o in ((43.0, 120.0, 0.0), (-10.0, -79.0, 0.1), (43.0, -79.0, 0.2)):
                    o = location(ctx, k, *o)
                    ctx.call(ctx.name(GEN + 'generate_vtws'), sat, o, 10)
                    ctx.meth(sat, 'attitude', o)
                ctx.call(ctx.name(GEN + 'generate_vtws'), fixed, loc, 10)
            else:
                p, sat = satellite(ctx, k, S, j, n)
                loc = site(ctx, k, S)
            ws = window_outputs(ctx, k, {}, ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, 10))
            a = ctx.meth(sat, 'attitude', loc)
            out = {'windows': len(ws)}
            for i, w in enumerate(ws):
                b = ctx.get(w, 'attitude')
                out['kind%d' % i] = ctx.cls(b)
                out['location%d' % i] = ctx.get(b, 'location') == loc
                out['length%d' % i] = len(ctx.vals(k.to(ctx.get(b, 'roll'), 'deg'))[1])
                if out['length%d' % i] == n:
                    for r in ROT + ('time',):
                        un = 'jd2000' if r == 'time' else 'deg'
                        for q in range(n):
                            out['%s%d[%d]' % (r, i, q)] = T.sub(ctx.vals(k.to(ctx.get(b, r), un))[1][q], ctx.vals(k.to(ctx.get(a, r), un))[1][q])
            return out

        def rel(v, G, p):
            if '!raise' in G:
                return None
            out = {}
            for l, x in G.items():
                if l.startswith('kind'):
                    out[l] = np.array([q == 'Attitude' for q in np.atleast_1d(x)])
                elif l.startswith('location'):
                    out[l] = np.asarray(x, bool)
                elif l.startswith('length'):
                    out[l] = np.asarray(x) == n
                elif l != 'windows':
                    out[l] = np.abs(np.asarray(x, float)) < 1e-9
            return out
        ctx.case('%d samples%s' % (n, ', other sites and satellites before' if others else ''), build, lambda v: {}, rel=rel, S=S, n=100, where=WG)
    return ctx.finish('other', RULE, 3)


def mkatt(ctx, k, loc, vals, j=2451545.0, unit='deg'):
    A = ctx.name('celest.coordinates.frames.attitude.Attitude')
    return ctx.call(A, ctx.arr([j]), *([ctx.arr([x]) for x in vals] + [k.unit(unit), loc]))


@guarded
def e04(ctx):
    """WindowCollection: one kind of window, order kept, independent iterations."""
    k = K(ctx)
    I = ctx.I
    VT, OW, WC = [ctx.name(HAN + x) for x in ('VisibleTimeWindow', 'ObservationWindow', 'WindowCollection')]
    def nx(it):
        return I.libs.BUILTINS['next'].fn(I, [it], {})
    S0 = Syms()
    t = [S0.f('t%d' % i, 1, 9) for i in range(4)]

    def vt(i):
        return ctx.call(VT, t[i % 4], T.add(t[i % 4], 1.0), None)

    def ow(i):
        return ctx.call(OW, k.q(t[i % 4], 'jd2000'), k.q(30, 's'), None, None)
    bads = {'a number': lambda: 5.0, 'a list': lambda: ctx.lst([vt(0)]), 'None': lambda: None, 'a quantity': lambda: k.q(1.0, 's')}
    for nm, seq in (('visible', 'vvvv'), ('observation', 'ooo'), ('one', 'v'), ('empty', ''), ('one observation', 'o')) + tuple(('%d %s' % (n, w), w[0] * n) for n in ctx.wide('encounter') for w in ('visible', 'observation')):
        def build(S, seq=seq):
            c = ctx.call(WC)
            ws = [vt(i) if x == 'v' else ow(i) for i, x in enumerate(seq)]
            for w in ws:
                ctx.meth(c, 'add_window', w)
            out = {'len': I.libs.len_(I, c), 'iter': [x for x in I.libs.iterate(I, c)] == ws, 'again': [x for x in I.libs.iterate(I, c)] == ws}
            # nested iterations do not disturb each other
            it1, it2 = I.libs.mkiter(I, c), I.libs.mkiter(I, c)
            a = [nx(it1) for _ in ws[:1]] + [nx(it2) for _ in ws[:1]] + [nx(it1) for _ in ws[1:2]]
            out['nested'] = a == ws[:1] + ws[:1] + ws[1:2]
            out['items'] = [I.getitem(c, i) for i in range(len(ws))] == ws
            out['last'] = I.getitem(c, -1) == ws[-1] if ws else True
            out['past the end'] = [raised(ctx, lambda: I.getitem(c, i), 'IndexError') for i in (len(ws), -len(ws) - 1)]
            out['past the end'] = out['past the end'] == ['IndexError'] * 2
            sl = I.getitem(c, SliceV(0, 2, None)) if len(ws) > 1 else None
            out['slice'] = list(I.libs.iterate(I, sl)) == ws[:2] if sl is not None else True
            return out
        ctx.case('%s windows' % nm, build, lambda v, seq=seq: {'len': len(seq), 'iter': True, 'again': True, 'nested': True, 'items': True, 'last': True, 'slice': True, 'past the end': True}, S=S0, n=3, where=WH)
    # a window of another kind is rejected and leaves the collection as it was
    for first in 'vo':
        for nfirst in [0, 1, 2, 4] + ctx.wide('encounter'):
            for bad in ['other'][:nfirst] + list(bads):
                def build(S):
                    c = ctx.call(WC)
                    ws = [vt(i) if first == 'v' else ow(i) for i in range(nfirst)]
                    for w in ws:
                        ctx.meth(c, 'add_window', w)
                    x = (ow(2) if first == 'v' else vt(2)) if bad == 'other' else bads[bad]()
                    out = {'exception': raised(ctx, lambda: ctx.meth(c, 'add_window', x))}
                    out['len'] = I.libs.len_(I, c)
                    out['windows'] = list(I.libs.iterate(I, c)) == ws
                    w = vt(3) if first == 'v' else ow(3)
                    out['next'] = raised(ctx, lambda: ctx.meth(c, 'add_window', w))
                    out['then'] = list(I.libs.iterate(I, c)) == ws + [w]
                    return out
                ctx.case('%d %s then %s' % (nfirst, {'v': 'visible', 'o': 'observation'}[first], bad), build,
                         lambda v: {'exception': 'TypeError', 'len': nfirst, 'windows': True, 'next': '', 'then': True}, S=S0, n=3, where=WH)
    # windows report what they were given
    S = Syms()
    r, s, d = S.f('r', 2450000, 2460000), S.f('s', 2450000, 2460000), S.f('d', 1, 900)

    def build(S):
        loc = location(ctx, k, 43.0, -79.0, 0.1)
        a = mkatt(ctx, k, loc, (1.0, 2.0, 3.0))
        v, o = ctx.call(VT, r, s, a), ctx.call(OW, k.q(r, 'jd2000'), k.q(d, 's'), loc, a)
        return {'rise': k.to(ctx.get(v, 'rise_time'), 'jd2000'), 'set': k.to(ctx.get(v, 'set_time'), 'jd2000'), 'att': ctx.get(v, 'attitude') == a,
                'start': k.to(ctx.get(o, 'start_time'), 'jd2000'), 'dur': k.to(ctx.get(o, 'duration'), 's'), 'loc': ctx.get(o, 'location') == loc, 'oatt': ctx.get(o, 'attitude') == a}
    ctx.case('fields', build, lambda v: {'rise': v.r, 'set': v.s, 'att': True, 'start': v.r, 'dur': v.d, 'loc': True, 'oatt': True}, S=S, n=20, rtol=0, atol=0, where=WH)
    return ctx.finish('other', RULE, 20)


def raised(ctx, f, *kinds):
    """Name of the exception f() ends in: the first of kinds it is an instance of, '' if none is raised."""
    try:
        f()
    except RaiseEx as e:
        c = ctx.I.heap[e.value.id].cls
        names = [getattr(m, 'name', '') for m in c.mro]
        return next((x for x in kinds or ('TypeError', 'ValueError', 'ArithmeticError') if x in names), c.name)
    return ''


@guarded
def e05(ctx):
    """Saved windows."""
    k = K(ctx)
    I = ctx.I
    VT, OW, WC = [ctx.name(HAN + x) for x in ('VisibleTimeWindow', 'ObservationWindow', 'WindowCollection')]
    for n in [1, 3] + ctx.wide('encounter', 'file_save'):
        S = Syms(n)
        r, s = [S.f('r%d' % i, 2450000, 2460000) for i in range(n)], [S.f('s%d' % i, 2450000, 2460000) for i in range(n)]

        def build(S):
            c = ctx.call(WC)
            for i in range(n):
                ctx.meth(c, 'add_window', ctx.call(VT, r[i], s[i], None))
            ctx.meth(c, 'save_text_file', 'w')
            return {'text': text_of(ctx), 'files': len(opened(ctx)), 'name': opened(ctx)[0][2], 'protocol': protocol(I.events)}

        def one(v, t, i):
            b = parse(t)
            if len(b) != 2 or 'VisibleTimeWindow' not in b[0][0]:
                return 'blocks %r' % (b[0],)
            return header_problem(b[0], b[0][0]) or check_values(b[1], [('Rise Time (jd2000)', [v['r%d' % q][i] for q in range(n)]), ('Set Time (jd2000)', [v['s%d' % q][i] for q in range(n)])])
        ctx.case('%d visible windows' % n, build, lambda v: {'files': 1, 'name': 'w.txt', 'protocol': ''}, rel=lambda v, G, p: None if '!raise' in G else by_value(v, G, lambda t, i: one(v, t, i)),
                 S=S, n=30, where=WH)
    for n, au, du in [(1, 'deg', 's'), (2, 'rad', 'min'), (3, 'deg', 's')] + [(n, 'deg', 's') for n in ctx.wide('encounter', 'file_save')]:
        S = Syms(n)
        r, d = [S.f('r%d' % i, 2450000, 2460000) for i in range(n)], [S.f('d%d' % i, 1, 900) for i in range(n)]
        a = [[S.f('%s%d' % (l, i), -90, 90) for l in 'abc'] for i in range(n)]
        la = ([10.25, -43.5, 70.0] * n)[:n]
        df, af = (60 if du == 'min' else 1), (180 / np.pi if au == 'rad' else 1)

        def build(S):
            c = ctx.call(WC)
            out = {}
            for i in range(n):
                loc = location(ctx, k, la[i], -79.0, 0.1)
                out['loc%d' % i] = ctx.str(loc)
                ctx.meth(c, 'add_window', ctx.call(OW, k.q(r[i], 'jd2000'), k.q(T.div(d[i], df), du), loc, mkatt(ctx, k, loc, [T.div(x, af) for x in a[i]], unit=au)))
            ctx.meth(c, 'save_text_file', 'w.txt')
            out.update({'text': text_of(ctx), 'files': len(opened(ctx)), 'name': opened(ctx)[0][2], 'protocol': protocol(I.events)})
            return out

        def one(v, G, t, i):
            b = parse(t)
            if len(b) != 2 or 'ObservationWindow' not in b[0][0]:
                return 'blocks %r' % (b[0],)
            col = lambda l: [v['%s%d' % (l, q)][i] for q in range(n)]
            return header_problem(b[0], b[0][0]) or check_values(b[1], [('Start Time (jd2000)', col('r')), ('Duration (s)', col('d')), ('Location', [str(G['loc%d' % q][i]) for q in range(n)]),
                                                                        ('Roll (deg)', col('a')), ('Pitch (deg)', col('b')), ('Yaw (deg)', col('c'))])
        ctx.case('%d observation windows' % n, build, lambda v: {'files': 1, 'name': 'w.txt', 'protocol': ''},
                 rel=lambda v, G, p: None if '!raise' in G else by_value(v, G, lambda t, i: one(v, G, t, i)), S=S, n=30, where=WH)
    S = Syms()

    def build(S):
        ctx.meth(ctx.call(WC), 'save_text_file', 'w')
        return {}
    ctx.case('empty collection', build, lambda v: {'!raise': True}, S=S, n=3, where=WH)
    return ctx.finish('other', RULE, 4)
