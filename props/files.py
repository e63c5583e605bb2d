"""Text files and strings."""
import numpy as np
from sa.harness import Syms
from sa import terms as T
from .units import K, guarded, RULE
from .coords import frame, location, convert, js, xyz, FR, gast_out, rotation, matmul, vec, RAD

WF = 'celest/file_save.py'
RULEF = RULE + ' The text is the concatenation of the writes on the trace; the relation parses it back.'


def text_of(ctx):
    return T.cat(*[e[2] for e in ctx.I.events if e[0] == 'write'])


def opened(ctx):
    return [e for e in ctx.I.events if e[0] == 'open']


def protocol(events):
    """'' when every file is opened for writing in UTF-8, written while open and closed."""
    st = {}
    for e in events:
        if e[0] == 'open' and e[4] != 'spk':
            if not isinstance(e[3], str) or e[3] not in ('w', 'wt', 'x'):
                return 'opened in mode %r' % (e[3],)
            if not isinstance(e[4], str) or e[4].lower().replace('_', '-') not in ('utf-8', 'utf8'):
                return 'opened with encoding %r' % (e[4],)
            st[e[1]] = 'open'
        elif e[0] == 'write' and e[1] in st and st[e[1]] != 'open':
            return 'write after close'
        elif e[0] == 'close' and e[1] in st:
            st[e[1]] = 'closed'
    return '; '.join('%s never closed' % k for k, s in st.items() if s == 'open')


def parse(text):
    """Blocks of a file: list of lists of lines."""
    return [b.split('\n') for b in text.split('\n\n')]


def check_data(lines, cols, fmts):
    """cols: list of (label, [cell strings]).  Returns problem or ''."""
    while lines and lines[-1] == '':
        lines = lines[:-1]
    if len(lines) < 2:
        return 'no data block'
    labs, und = lines[0].split('\t'), lines[1].split('\t')
    if [x.strip() for x in labs] != [c[0] for c in cols]:
        return 'labels %r instead of %r' % ([x.strip() for x in labs], [c[0] for c in cols])
    rows = [l.split('\t') for l in lines[2:]]
    if len(rows) != len(cols[0][1]):
        return '%d rows instead of %d' % (len(rows), len(cols[0][1]))
    for i, r in enumerate(rows):
        if len(r) != len(cols):
            return 'row %d has %d fields instead of %d' % (i, len(r), len(cols))
        for x, (lab, cells) in zip(r, cols):
            if x.strip() != cells[i].strip():
                return 'row %d of %s is %r instead of %r' % (i, lab, x.strip(), cells[i].strip())
    if fmts:
        if any(set(u) != {'-'} for u in und) or len(und) != len(cols):
            return 'underline %r' % (lines[1],)
        for r in [labs] + rows:
            for x, u in zip(r, und):
                if len(x) != len(u):
                    return 'cell %r is not as wide as its column (%d)' % (x, len(u))
    return ''


def header_problem(block, header):
    if block[0] != header:
        return 'first line %r instead of %r' % (block[0], header)
    if len(block) < 2 or set(block[1]) != {'='} or len(block[1]) != len(header):
        return 'header underline %r' % (block[1:2],)
    return ''


def by_value(v, G, f):
    n = len(G['text'])
    bad = [f(str(G['text'][i]), i) for i in range(n)]
    msg = next((b for b in bad if b), '')
    return {'content' + (': ' + msg if msg else ''): np.array([not b for b in bad])}


@guarded
def f01(ctx):
    """The writer itself."""
    k = K(ctx)
    W = ctx.name('celest.file_save.TextFileWriter')
    Q = ctx.name('celest.units.quantity.Quantity')

    def column(kind, name, S, n):
        if kind == 'qty':
            xs = [S.f('%s%d' % (name, i), -1e5, 1e5, special=[0.0, -0.5, 99999.9995]) for i in range(n)]
            return lambda: ctx.call(Q, ctx.arr(xs), k.unit('km')), lambda v, i: [v['%s%d' % (name, q)][i] for q in range(n)]
        if kind == 'arr':
            xs = [S.f('%s%d' % (name, i), -1e5, 1e5) for i in range(n)]
            return lambda: ctx.arr(xs), lambda v, i: [v['%s%d' % (name, q)][i] for q in range(n)]
        if kind == 'int':
            xs = [S.i('%s%d' % (name, i), -50, 1000) for i in range(n)]
            return lambda: ctx.arr(xs, 'i'), lambda v, i: [int(v['%s%d' % (name, q)][i]) for q in range(n)]
        ss = (['Toronto', 'a', 'North Bay, ON', 'x' * 40] * 2)[:n]
        return lambda: ctx.arr(ss, 'U'), lambda v, i: ss

    def fmt(f, x):
        return x if isinstance(x, str) else f % x
    plans = [('one quantity', [(None, None, ['qty'], 2, '%.15f')]),
             ('quantity and array', [('Sub', [['A', '1'], ['B', 'two']], ['qty', 'arr'], 3, '%.3f')]),
             ('single row', [('Sub', None, ['qty', 'qty', 'arr'], 1, '%.15f')]),
             ('text column', [(None, [['Location', 'N°']], ['qty', 'str', 'arr'], 2, '%.2f')]),
             ('text column first', [(None, None, ['str', 'qty'], 3, '%.1e')]),
             ('integers', [(None, None, ['int'], 3, '%.3f')]),
             ('integers and reals', [(None, None, ['int', 'arr'], 2, '%d')]),
             ('two layers', [('One', None, ['qty'], 2, '%.15f'), (None, [['P', 'q']], ['arr', 'qty'], 3, '%.4f')]),
             ('three layers', [('One', [['P', 'q']], None, 0, '%.15f'), (None, None, ['qty'], 2, '%.5f'), ('Three', None, None, 0, '%.2f')]),
             ('no layer', []),
             ] + [('%d rows' % n, [('Sub', None, ['qty', 'arr'], n, '%.4f'), (None, None, ['arr'], 2, '%.2f')]) for n in ctx.wide()] + [
             ('shortest form', [('Sub', None, ['qty', 'arr'], 5, '%g'), (None, None, ['arr', 'qty'], 4, '%.3g')]),
             ('blank ends', [('Sub', None, ['qty'], 2, '%.3f')]),
             ('no header', [('Sub', [['A', '1']], ['qty', 'arr'], 2, '%.6f')])]
    for nm, layers in plans:
        header = {'no header': None, 'blank ends': '  Some header '}.get(nm, 'Some header')
        S = Syms(max([0] + [l[3] for l in layers]))
        cols = []
        for li, (sub, par, kinds, n, f) in enumerate(layers):
            cols.append([('c%d%d' % (li, ci), kd) + column(kd, 'c%d%d' % (li, ci), S, n) for ci, kd in enumerate(kinds or [])])
        S.f('dummy', 0, 1)

        def build(S):
            w = ctx.call(W, 'out', header) if header is not None else ctx.call(W, 'out')
            for (sub, par, kinds, n, f), cs in zip(layers, cols):
                kw = {'data_format': f}
                if sub is not None:
                    kw['subheading'] = sub
                if par is not None:
                    kw['parameters'] = ctx.lst([ctx.lst(list(x)) for x in par])
                if kinds:
                    kw['data'] = ctx.lst([ctx.lst([c[0], c[2]()]) for c in cs])
                ctx.meth(w, 'add_layer', **kw)
            ctx.meth(w, 'save')
            return {'text': text_of(ctx), 'files': len(opened(ctx)), 'name': opened(ctx)[0][2], 'protocol': protocol(ctx.I.events)}

        def one(v, t, i):
            blocks = parse(t)
            if header is not None:
                p = header_problem(blocks[0], header)
                if p:
                    return p
                blocks = blocks[1:]
            for (sub, par, kinds, n, f), cs in zip(layers, cols):
                if sub is not None:
                    if not blocks or blocks[0] != [sub]:
                        return 'subheading %r missing' % sub
                    blocks = blocks[1:]
                if par is not None:
                    if not blocks or [l for l in blocks[0] if l] != ['%s: %s' % tuple(x) for x in par]:
                        return 'parameters are %r' % (blocks[:1],)
                    blocks = blocks[1:]
                if kinds:
                    if not blocks:
                        return 'data block missing'
                    p = check_data(blocks[0], [(c[0] + (' (km)' if c[1] == 'qty' else ''), [fmt(f, x) for x in c[3](v, i)]) for c in cs], True)
                    if p:
                        return p
                    blocks = blocks[1:]
            blocks = [b for b in blocks if any(b)]
            return 'unexpected text %r' % (blocks[:1],) if blocks else ''

        def rel(v, G, p):
            if '!raise' in G:
                return None
            return by_value(v, G, lambda t, i: one(v, t, i))
        ctx.case(nm, build, lambda v: {'files': 1, 'name': 'out.txt', 'protocol': ''}, rel=rel, S=S, n=60, where=WF)
    # saving twice writes the same text; the caller's data are not changed
    S = Syms()
    xs = [S.f('x%d' % i, -5, 5) for i in (0, 1)]

    def build(S):
        w = ctx.call(W, 'f', 'H')
        a = ctx.arr(xs)
        ctx.meth(w, 'add_layer', data=ctx.lst([ctx.lst(['A', a])]))
        ctx.meth(w, 'save')
        t1 = text_of(ctx)
        n = len(ctx.I.events)
        ctx.meth(w, 'save')
        t2 = T.cat(*[e[2] for e in ctx.I.events[n:] if e[0] == 'write'])
        out = {'text': t1, 'again': t2, 'protocol': protocol(ctx.I.events)}
        ctx.put(out, 'a', a)
        return out

    def ref(v):
        o = {'protocol': ''}
        ctx.expect(o, 'a', np.stack([v.x0, v.x1], -1))
        return o
    ctx.case('saved twice', build, ref, rel=lambda v, G, p: None if '!raise' in G else {'same text': np.array([a == b for a, b in zip(G['text'], G['again'])])}, S=S, n=30, where=WF)
    # names
    for given, want in (('a.txt', 'a.txt'), ('a', 'a.txt'), ('dir/a.b', 'dir/a.b.txt'), ('txt', 'txt.txt'), ('a.txt.bak', 'a.txt.bak.txt'), ('a.TXT', None)):
        S = Syms()

        def build(S, given=given):
            w = ctx.call(W, given, 'H')
            ctx.meth(w, 'save')
            return {'name': opened(ctx)[0][2], 'text': text_of(ctx), 'ends in .txt': str(opened(ctx)[0][2]).lower().endswith('.txt')}
        ctx.case('name %s' % given, build, lambda v, want=want: {'ends in .txt': True, **({'name': want} if want else {})}, S=S, n=3, where=WF)
    return ctx.finish('other', RULEF, 14)


def near(tol):
    return lambda cell, x: abs(float(cell) - x) <= tol + 1e-12 * abs(x)


def check_values(lines, cols):
    """cols: list of (label, [(cell) -> bool])."""
    while lines and lines[-1] == '':
        lines = lines[:-1]
    labs = [x.strip() for x in lines[0].split('\t')] if lines else []
    if labs != [c[0] for c in cols]:
        return 'labels %r instead of %r' % (labs, [c[0] for c in cols])
    rows = [l.split('\t') for l in lines[2:]]
    if len(rows) != len(cols[0][1]):
        return '%d rows instead of %d' % (len(rows), len(cols[0][1]))
    for i, r in enumerate(rows):
        if len(r) != len(cols):
            return 'row %d has %d fields' % (i, len(r))
        for x, (lab, vals) in zip(r, cols):
            w = vals[i]
            if isinstance(w, str):
                good = x.strip() == w.strip()
            else:
                try:
                    good = abs(float(x) - w) <= 1e-9 * max(1.0, abs(w))
                except ValueError:
                    good = False
            if not good:
                return 'row %d of %s is %r instead of %r' % (i, lab, x.strip(), w)
    return ''


FRAMECOLS = {'GCRS': ('X', 'Y', 'Z'), 'ITRS': ('X', 'Y', 'Z'), 'LVLH': ('X', 'Y', 'Z'), 'WGS84': ('Latitude', 'Longitude', 'Height'),
             'AzEl': ('Azimuth', 'Elevation'), 'Attitude': ('Roll', 'Pitch', 'Yaw')}
MOD = {'GCRS': 'gcrs', 'ITRS': 'itrs', 'WGS84': 'wgs84', 'AzEl': 'azel', 'LVLH': 'lvlh', 'Attitude': 'attitude'}


@guarded
def f02(ctx):
    """save_text_file of every frame and of a satellite."""
    k = K(ctx)
    for name, labs in FRAMECOLS.items():
        for n, us in [(2, None), (1, 'alt'), (3, None)] + [(n, None) for n in ctx.wide()]:
            S = Syms(n)
            j = js(S, n)
            q = [[S.f('q%d_%d' % (c, i), -80, 80) for i in range(n)] for c in range(len(labs))]
            U = {'WGS84': ('rad', 'rad', 'm') if us else ('deg', 'deg', 'km'), 'AzEl': ('rad',) * 2 if us else ('deg',) * 2, 'Attitude': ('rad',) * 3 if us else ('deg',) * 3}.get(name, ('m',) * 3 if us else ('km',) * 3)

            def build(S):
                a = [ctx.arr(j)] + [ctx.arr(c) for c in q]
                tail = [k.unit(U[0])]
                loc = None
                if name == 'WGS84':
                    tail.append(k.unit(U[2]))
                if name in ('AzEl', 'Attitude'):
                    loc = location(ctx, k, 43.5, -79.25, 0.1)
                    tail.append(loc)
                p = ctx.call(ctx.name(FR + MOD[name] + '.' + name), *(a + tail))
                ctx.meth(p, 'save_text_file', 'data')
                out = {'text': text_of(ctx), 'files': len(opened(ctx)), 'name': opened(ctx)[0][2], 'protocol': protocol(ctx.I.events)}
                if loc is not None:
                    out['location'] = ctx.str(loc)
                return out

            def one(v, t, i, G):
                blocks = parse(t)
                if name not in blocks[0][0] and {'AzEl': 'Azimuth-Elevation'}.get(name) not in blocks[0][0].split():
                    return 'header %r does not name the frame' % blocks[0][0]
                p = header_problem(blocks[0], blocks[0][0])
                if p:
                    return p
                blocks = blocks[1:]
                if name in ('AzEl', 'Attitude'):
                    if not blocks or blocks[0] != ['Location: ' + G['location'][i]]:
                        return 'location line %r' % (blocks[:1],)
                    blocks = blocks[1:]
                if len(blocks) != 1:
                    return '%d data blocks' % len(blocks)
                cols = [('Time (jd2000)', ['%.15f' % v['j%d' % r][i] for r in range(n)])] + \
                       [('%s (%s)' % (l, u), ['%.15f' % v['q%d_%d' % (c, r)][i] for r in range(n)]) for c, (l, u) in enumerate(zip(labs, U))]
                return check_data(blocks[0], cols, True)

            def rel(v, G, p):
                if '!raise' in G:
                    return None
                return by_value(v, G, lambda t, i: one(v, t, i, G))
            ctx.case('%s, %d rows' % (name, n), build, lambda v: {'files': 1, 'name': 'data.txt', 'protocol': ''}, rel=rel, S=S, n=40, where='celest/coordinates/frames/%s.py' % MOD[name])
    # satellites
    for vel in (True, False):
        for fr in ('ITRS', 'GCRS'):
            n = 2
            S = Syms()
            j, q = js(S, n), xyz(S, n)
            w = [[S.f('v%s%d' % (c, i), -8, 8) for i in range(n)] for c in 'xyz']
            VU = ('/', 'km', 's')

            def build(S):
                p = frame(ctx, k, fr, j, q, 'km')
                args = [p] + ([frame(ctx, k, fr, j, w, VU)] if vel else [])
                sat = ctx.call(ctx.name('celest.satellite.Satellite'), *args)
                ctx.meth(sat, 'save_text_file', 'sat.txt')
                out = {'text': text_of(ctx), 'files': len(opened(ctx)), 'name': opened(ctx)[0][2], 'protocol': protocol(ctx.I.events)}
                gast_out(ctx, k, out, j)
                out['vu'] = ctx.str(k.unit(VU))
                return out

            def one(v, t, i, M, G):
                blocks = parse(t)
                if len(blocks) != 2:
                    return '%d blocks' % len(blocks)
                p = header_problem(blocks[0], blocks[0][0])
                if p:
                    return p
                cols = [('Time (jd2000)', [v['j%d' % r][i] for r in range(n)])]
                for F in ('Itrs', 'Gcrs'):
                    for pre, un in (('', 'km'), ('V', G['vu'][i])):
                        if pre and not vel:
                            continue
                        for c, l in enumerate('XYZ'):
                            cols.append(('%s %s%s (%s)' % (F, pre, l, un), [M[F.upper() + pre][r][i][c] for r in range(n)]))
                return check_values(blocks[1], cols)

            def rel(v, G, p):
                if '!raise' in G:
                    return None
                M = {}
                for pre in ('', 'V') if vel else ('',):
                    x = vec(v, n, [pre.lower() + c for c in 'xyz'])
                    Rm = [rotation(v['j%d' % r], np.asarray(G['gast[%d]' % r], float)) for r in range(n)]
                    M['ITRS' + pre] = [x[:, r] if fr == 'ITRS' else matmul(Rm[r], x[:, r]) for r in range(n)]
                    M['GCRS' + pre] = [x[:, r] if fr == 'GCRS' else matmul(np.swapaxes(Rm[r], -1, -2), x[:, r]) for r in range(n)]
                return by_value(v, G, lambda t, i: one(v, t, i, M, G))
            ctx.case('Satellite(%s) %s velocity' % (fr, 'with' if vel else 'without'), build, lambda v: {'files': 1, 'name': 'sat.txt', 'protocol': ''}, rel=rel, S=S, n=40,
                     where='celest/satellite.py')
    return ctx.finish('other', RULEF, 20)


def sexagesimal(t, hemi, digits=2):
    """(signed degrees, problem) of dd°mm′ss.ss″H"""
    import re
    m = re.fullmatch(r'(\d{2,3})\u00b0(\d{2})\u2032(\d{2}\.\d{2})\u2033([NSEW])', t)
    if not m:
        return None, 'malformed %r' % t
    d, mi, s = int(m.group(1)), int(m.group(2)), float(m.group(3))
    if mi >= 60 or s >= 60:
        return None, 'minutes or seconds out of range in %r' % t
    if m.group(4) not in hemi:
        return None, 'hemisphere in %r' % t
    return (d + mi / 60 + s / 3600) * (1 if m.group(4) == hemi[0] else -1), ''


@guarded
def f03(ctx):
    """str() of a ground location."""
    k = K(ctx)
    edge = [0.0, -0.0, 59.999999, 44.9999999, 12.99999861, -12.99999861, 1 / 3, -1 / 60, 30.0, -0.0013, 0.99999, 89.9999999, 59.9999, 10.016665]
    for ua, ul, sc in (('deg', 'km', 1.0), ('rad', 'm', 180 / np.pi), ('arcmin', 'mi', 1 / 60), ('hourangle', 'km', 15.0)):
        S = Syms()
        la = S.f('la', -89.999, 89.999, special=edge + [90.0, -90.0] if ua == 'deg' else edge)
        lo = S.f('lo', -179.999, 179.999, special=edge + [179.9999999, -179.99999999])
        h = S.f('h', -0.4, 9000, special=[0.0, 0.005, 12.345])

        def build(S):
            loc = location(ctx, k, T.div(la, sc), T.div(lo, sc), h, ua, ul)
            return {'text': ctx.str(loc)}

        def one(v, t, i):
            ps = t.split(' ')
            if len(ps) < 3:
                return 'not three parts: %r' % t
            a, e = sexagesimal(ps[0], 'NS')
            if e:
                return e
            b, e = sexagesimal(ps[1], 'EW')
            if e:
                return e
            for nm, x, y in (('latitude', a, v.la[i]), ('longitude', b, v.lo[i])):
                if abs(x - y) > 0.0051 / 3600:
                    return '%s is written as %r for %r' % (nm, t, y)
            hs = ' '.join(ps[2:])
            if not hs.endswith(ul):
                return 'height %r is not in %s' % (hs, ul)
            try:
                if abs(float(hs[:-len(ul)]) - v.h[i]) > 0.00501:
                    return 'height is written as %r for %r' % (hs, v.h[i])
            except ValueError:
                return 'height %r' % hs
            return ''

        def rel(v, G, p):
            if '!raise' in G:
                return None
            return by_value(v, G, lambda t, i: one(v, t, i))
        ctx.case('%s, %s' % (ua, ul), build, lambda v: {}, rel=rel, S=S, n=600, edges='exact', where='celest/angle_strings.py')
    return ctx.finish('other', RULE + ' The string is parsed back: the angle must be within half a hundredth of an arc second.', 3)


FAULTY = {'GCRS': 3, 'Attitude': 3, 'WGS84': 3, 'AzEl': 2, 'Satellite': 3, 'writer': 0, 'windows': 0}


def closed_on_every_path(outs):
    bad = {}
    for kind, val, p, *_ in outs:
        st = {}
        for e in p.events:
            if e[0] == 'open':
                st[e[1]] = e
            elif e[0] == 'close':
                st.pop(e[1], None)
        for fid, e in st.items():
            bad['%s opened at %s' % ('ephemeris' if e[3] == 'spk' else 'file', e[-1])] = 'not closed on a path that %s at %s' % (
                'raises ' + str(val) if kind == 'raise' else 'returns', p.site)
    return [(l, m) for l, m in bad.items()]


@guarded
def f04(ctx):
    """Typestate: files and ephemerides are closed on every path, including failures of any write or computation."""
    k = K(ctx)
    I = ctx.I
    for name in FAULTY:
        S = Syms()
        n = 2

        def build(S):
            j = [S.f('j%d' % i, 1, 2) for i in range(n)]
            if name == 'writer':
                w = ctx.call(ctx.name('celest.file_save.TextFileWriter'), 'f', 'H')
                ctx.meth(w, 'add_layer', subheading='s', parameters=ctx.lst([ctx.lst(['a', 'b'])]), data=ctx.lst([ctx.lst(['A', ctx.arr(j)])]))
                I.hooks['file.write'] = fail
                ctx.meth(w, 'save')
            elif name == 'windows':
                wc = windows(ctx, k, S, 2)
                I.hooks['file.write'] = fail
                ctx.meth(wc, 'save_text_file', 'f')
            elif name == 'Satellite':
                q = [[S.f('%s%d' % (c, i), 1, 2) for i in range(n)] for c in 'xyz']
                s = ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', j, q, 'km'))
                I.hooks['file.write'] = fail
                ctx.meth(s, 'save_text_file', 'f')
            else:
                a = [ctx.arr(j)] + [ctx.arr([S.f('q%d%d' % (c, i), 1, 2) for i in range(n)]) for c in range(FAULTY[name])]
                tail = [k.unit('deg' if name in ('WGS84', 'AzEl', 'Attitude') else 'km')] + ([k.unit('km')] if name == 'WGS84' else [])
                if name in ('AzEl', 'Attitude'):
                    tail.append(location(ctx, k, 43.0, -79.0, 0.1))
                p = ctx.call(ctx.name(FR + MOD[name] + '.' + name), *(a + tail))
                I.hooks['file.write'] = fail
                ctx.meth(p, 'save_text_file', 'f')
            return {'opened': len(opened(ctx)) > 0}
        faults = []

        def fail(I):
            if I.choose(2):
                faults.append(1)
                I.throw('OSError', 'no space left on device')
        try:
            ctx.case('writes of %s fail' % name, build, lambda v: {'opened': True}, rel=lambda v, G, p: G.get('!raise') in ('OSError',) if '!raise' in G else None, S=S, n=3, agg=closed_on_every_path, where=WF)
        finally:
            I.hooks.pop('file.write', None)
        if not faults and not any(u[0] == 'writes of %s fail' % name for u in ctx.undecided):
            ctx.undecided.append(('writes of %s fail' % name, 'no write of the file was seen'))
    # ephemeris
    for what in ('DAYTIME', 'NIGHTTIME'):
        S = Syms()

        def compute(I, key, t):
            if I.choose(2):
                I.throw('ValueError', 'date outside the ephemeris')
            sh, xs = ctx.vals(t)
            return I.newarr([S.f('sun%d%d' % (c, i), -1.5e8, 1.5e8) for c in range(3) for i in range(len(xs))], (3, len(xs)), 'f')

        def build(S):
            I.hooks['spk.compute'] = compute
            loc = location(ctx, k, 43.0, -79.0, 0.1)
            L = ctx.get(ctx.name('celest.encounter.window_generator.Lighting'), what)
            sat = ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', [2451545.0], [[7000.0], [0.0], [0.0]], 'km'),
                           frame(ctx, k, 'ITRS', [2451545.0], [[0.0], [7.5], [0.0]], ('/', 'km', 's')))
            ctx.call(ctx.name('celest.encounter.window_generator.generate_vtws'), sat, loc, 0.0, L)
            return {'opened': len(opened(ctx)) > 0}
        ctx.case('ephemeris, %s' % what, build, lambda v: {'opened': True}, rel=lambda v, G, p: True if '!raise' in G else None, S=S, n=3, agg=closed_on_every_path,
                 where='celest/encounter/window_generator.py')
        I.hooks.pop('spk.compute', None)
    return ctx.finish('other', 'Typestate analysis over all traces: every write and every ephemeris computation may fail; each file or kernel opened on a trace must be closed on that trace.', 8)


def windows(ctx, k, S, n):
    wc = ctx.call(ctx.name('celest.encounter.window_handling.WindowCollection'))
    V = ctx.name('celest.encounter.window_handling.VisibleTimeWindow')
    for i in range(n):
        ctx.meth(wc, 'add_window', ctx.call(V, S.f('r%d' % i, 1, 2), S.f('s%d' % i, 2, 3), None))
    return wc
