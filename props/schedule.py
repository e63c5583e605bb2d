"""Scheduling: request handler, insertion and removal operators, the search and the scheduler."""
import itertools
import math
import random
import numpy as np
from sa.harness import Syms
from sa import terms as T
from sa.values import SliceV
from sa.interp import RaiseEx
from .units import K, guarded, RULE

INS = 'celest.schedule.insertion_operators.'
REM = 'celest.schedule.removal_operators.'
RH = 'celest.schedule.request_handler.'
UT = 'celest.schedule.scheduling_utils.'
HAN = 'celest.encounter.window_handling.'
FI, FR, FH, FA, FS, FU = ['celest/schedule/%s.py' % x for x in ('insertion_operators', 'removal_operators', 'request_handler', 'alns', 'scheduler', 'scheduling_utils')]


class Req:
    """A request of a case: windows are pairs of inputs; times in days, duration in `unit`."""

    def __init__(self, name, windows, deadline=1e9, duration=0.5, unit='dy', priority=1, quality=-1000, look=None, att=None, sch=None):
        self.name, self.windows, self.deadline, self.duration, self.unit = name, windows, deadline, duration, unit
        self.priority, self.quality, self.look, self.att, self.sch = priority, quality, look, att or [None] * len(windows), sch
        self.vt = []


class H:
    """A handler built through its methods, with the objects it was given."""

    def __init__(self, ctx, k, reqs, order=None, between=None):
        """With `between`, the last request is added after that was done with the handler of the others."""
        self.ctx, self.k = ctx, k
        self.reqs = [reqs[i] for i in order] if order else list(reqs)
        VT = ctx.name(HAN + 'VisibleTimeWindow')
        self.h = ctx.call(ctx.name(RH + 'RequestHandler'))
        self.given = {}
        for r in self.reqs:
            for a, b in r.windows:
                if isinstance(a, T.Term) or isinstance(b, T.Term):
                    ctx.I.assume(T.lt(a, b))
        for i, r in enumerate(self.reqs):
            r.vt = [ctx.call(VT, a, b, t) for (a, b), t in zip(r.windows, r.att)]
            g = [r.name, k.q(r.deadline, 'jd2000'), k.q(r.duration, r.unit), r.priority, r.quality, None if r.look is None else k.q(r.look, 'deg'), ctx.lst(r.vt)]
            self.given[r.name] = g[:6]
            if between and i == len(self.reqs) - 1:
                between(self.h)
            ctx.meth(self.h, 'add_request', *g)
        self.ix = ctx.name(RH + 'RequestIndices')
        for i, r in enumerate(self.reqs):
            if r.sch:
                w, s = r.sch
                if between:
                    # where the request and the window are after what was done
                    i = next(j for j, q in enumerate(list(ctx.I.libs.iterate(ctx.I, self.h))) if self.field(q, 'location') == r.name)
                    w = list(ctx.I.libs.iterate(ctx.I, self.field(ctx.I.getitem(self.h, i), 'vtw_list'))).index(r.vt[w])
                ctx.meth(self.h, 'schedule_request', i, w, k.q(s, 'jd2000'), self.given[r.name][2])

    def field(self, req, f):
        return self.ctx.I.getitem(req, self.ctx.get(self.ix, f))

    def same(self, a, b):
        """Identity of two references, or equality of plain values."""
        return a is b or a == b

    def read(self, out, h=None, fields=True):
        """Observable state of every request, by name."""
        ctx, I = self.ctx, self.ctx.I
        h = self.h if h is None else h
        names = []
        nsch = 0
        by = {r.name: r for r in self.reqs}
        for q in list(I.libs.iterate(I, h)):
            nm = self.field(q, 'location')
            names.append(nm)
            r = by[nm]
            sch = I.truth(self.field(q, 'is_scheduled'))
            out['scheduled ' + nm] = sch
            idx, start, dur = [self.field(q, f) for f in ('vtw_index', 'scheduled_start_time', 'scheduled_duration')]
            vl = self.field(q, 'vtw_list')
            vs = list(I.libs.iterate(I, vl))
            if sch:
                nsch += 1
                w = I.getitem(vl, idx)
                out['window ' + nm] = next((i for i, x in enumerate(r.vt) if x == w), -1)
                out['start ' + nm] = ctx.vals(self.k.to(start, 'jd2000'))[1][0]
                out['duration ' + nm] = ctx.vals(self.k.to(dur, 'dy'))[1][0]
            else:
                out['blank ' + nm] = idx is None and start is None and dur is None
            out['windows ' + nm] = ' '.join(str(next((i for i, x in enumerate(r.vt) if x == w), -1)) for w in vs)
            if fields:
                g = self.given[nm]
                out['kept ' + nm] = all(self.same(self.field(q, f), x) for f, x in zip(('location', 'deadline', 'duration', 'priority', 'quality', 'look_angle'), g))
        out['order'] = ' '.join(names)
        out['n'] = I.libs.len_(I, h)
        out['count'] = ctx.get(h, 'number_of_scheduled_requests')
        out['counted'] = nsch
        return out


def at(x, v, i):
    """Value of an input of the case under valuation i."""
    if isinstance(x, T.Term):
        if x.op == 'sym':
            return float(np.asarray(v[x.args[0]])[i])
        raise ValueError('not an input')
    return x


def days(r, v, i):
    return at(r.duration, v, i) / {'dy': 1.0, 'hr': 24.0, 'min': 1440.0, 's': 86400.0}[r.unit]


def quality(rise, set_, start):
    return math.floor(10 - 9 * abs(start - (rise + set_) / 2) / ((set_ - rise) / 2))


def overlap(a, b):
    return max(0.0, min(a[1], b[1]) - max(a[0], b[0]))


def degree(w, reqs_w):
    """Mean overlap of a window with the windows it touches (itself included)."""
    o = [overlap(w, x) for ws in reqs_w for x in ws if not (w[1] < x[0] or x[1] < w[0])]
    return sum(o) / len(o)


def simulate(reqs, v, i, number, order, vorder=None, eps=0.0):
    """Reference insertion: state {name: (window, start)} after inserting `number` requests in `order`; margin of the closest guard."""
    st = {}
    for r in reqs:
        if r.sch:
            st[r.name] = (r.sch[0], at(r.sch[1], v, i))
    D = {r.name: days(r, v, i) for r in reqs}
    by = {r.name: r for r in reqs}
    margin = [1.0]

    def lt(a, b):
        margin.append(abs(b - a))
        return a < b
    new = []
    for nm in order:
        if number <= 0:
            break
        r = by[nm]
        if nm in st:
            continue
        d = D[nm]
        for w in (vorder[nm] if vorder else range(len(r.windows))):
            a, b = [at(x, v, i) for x in r.windows[w]]
            s = (a + b + d) / 2
            if not (lt(a, s) and lt(s + d, b)):
                continue
            if not lt(s + d, at(r.deadline, v, i)):
                continue
            x = 10 - 9 * abs(s - (a + b) / 2) / ((b - a) / 2)
            margin.append(abs(x - round(x)))
            if math.floor(x) < at(r.quality, v, i):
                continue
            clash = False
            for o, (ow, os) in st.items():
                if lt(s, os + D[o]) and lt(os, s + d):
                    clash = True
            if clash:
                continue
            st[nm] = (w, s)
            new.append(nm)
            number -= 1
            break
    return st, min(margin)


def agree(reqs, v, G, sim, exact=False):
    """Relations: the observed state equals the simulated one (valuations on a boundary are excluded unless exact)."""
    N = v['_n']
    ok = {l: np.ones(N, bool) for l in ('which requests are scheduled', 'scheduled window', 'scheduled start', 'scheduled duration')}
    bad = np.zeros(N, bool)
    pick = lambda l, i: np.asarray(G[l])[i] if l in G else None
    for i in range(N):
        st, margin = sim(i)
        if margin < 1e-7 and not exact:
            bad[i] = True
            continue
        for r in reqs:
            s = bool(pick('scheduled ' + r.name, i))
            if s != (r.name in st):
                ok['which requests are scheduled'][i] = False
            elif s:
                w, t = st[r.name]
                ok['scheduled window'][i] &= int(pick('window ' + r.name, i)) == w
                ok['scheduled start'][i] &= abs(float(pick('start ' + r.name, i)) - t) < 1e-9
                ok['scheduled duration'][i] &= abs(float(pick('duration ' + r.name, i)) - days(r, v, i)) < 1e-9
    for r in reqs:
        if 'blank ' + r.name in G:
            ok.setdefault('unscheduled requests hold no schedule', np.ones(N, bool))
            ok['unscheduled requests hold no schedule'] &= np.asarray(G['blank ' + r.name], bool)
        ok.setdefault('requests are kept', np.ones(N, bool))
        ok['requests are kept'] &= np.asarray(G['kept ' + r.name], bool)
    ok['counter'] = np.asarray(G['count']).astype(float) == np.asarray(G['counted']).astype(float)
    return {l: x | bad for l, x in ok.items()}


def wsym(S, names, hi=8, grid=None):
    """Windows (rise, set) with rise < set."""
    out = []
    for nm in names:
        a, L, b = S.f('a' + nm, 0, hi, grid=grid), S.f('L' + nm, 0.5, 4, grid=grid), S.f('b' + nm, 0, 20)
        out.append((a, b))
    prev = S.post

    def post(v):
        if prev:
            v = prev(v)
        for nm in names:
            v['b' + nm] = np.asarray(v['a' + nm], float) + np.asarray(v['L' + nm], float)
        return v
    S.post = post
    return out


def crowd(n, seed, counts=None):
    """Many requests with known, distinct windows and priorities; every third one is scheduled somewhere in one of its windows."""
    rnd = random.Random(seed)
    prio = rnd.sample(range(1, 5 * n), n)
    out = []
    for i in range(n):
        c = counts[i] if counts else rnd.choice((0, 1, 1, 2, 2, 3))
        ws = []
        for _ in range(c):
            a = rnd.uniform(0, n)
            ws.append((a, a + rnd.uniform(0.6, 4)))
        sch = None
        if c and rnd.random() < 0.35:
            q = rnd.randrange(c)
            sch = (q, ws[q][0] + 0.2)
        out.append(Req('R%d' % i, ws, rnd.uniform(n / 2, 1.5 * n), rnd.uniform(0.1, 0.5), 'dy', prio[i], rnd.randrange(-3, 9), sch=sch))
    return out


def crowds(ctx, most=300):
    """(name, size, requests, inputs) of every crowd: sizes around those the source distinguishes."""
    for n in ctx.wide('schedule', most=most):
        S = Syms()
        S.f('u', 0, 1)
        yield '%d requests' % n, n, S


def insertion_case(ctx, k, name, make, op, number, order, vorder=None, n=200, exact=False, perm=None, S=None, budget=150):
    reqs = make

    def build(S):
        h = H(ctx, k, reqs, perm)
        ctx.call(ctx.name(INS + op), h.h, number)
        return h.read({})

    def rel(v, G, p):
        if '!raise' in G:
            return None
        def sim(i):
            o = order(v, i) if callable(order) else order
            return simulate(reqs, v, i, number, o, vorder(v, i) if vorder else None)
        return agree(reqs, v, G, sim, exact)
    ctx.case(name, build, lambda v: {}, rel=rel, S=S, n=n, where=FI, edges='exact' if exact else 'ignore', budget=budget)


@guarded
def k01(ctx):
    """Insertion: the first feasible window in processing order, all guards."""
    k = K(ctx)
    for unit, g in (('dy', None), ('s', None), ('dy', 0.25)):
        S = Syms()
        f = {'dy': 1, 's': 86400}[unit]
        w = wsym(S, ['0', '1'], grid=g)
        r = Req('A', w, S.f('dl', 0, 14, grid=g), S.f('du', 0.25 * f, 3 * f, grid=g), unit, 3, S.i('q', -12, 11))
        insertion_case(ctx, k, 'one request, two windows, %s%s' % (unit, ', boundaries' if g else ''), [r], 'greedy_insertion', 1, ['A'], S=S, exact=bool(g))
    # against scheduled requests, boundaries included
    for g in (None, 0.25):
        S = Syms()
        w = wsym(S, ['0', '1'], grid=g)
        a = Req('A', w[:1], 1e9, S.f('da', 0.25, 2, grid=g), 'dy', 3, -1000)
        b = Req('B', w[1:], 1e9, S.f('db', 0.25, 2, grid=g), 'dy', 5, -1000, sch=(0, S.f('sb', 0, 12, grid=g)))
        insertion_case(ctx, k, 'one scheduled, one new%s' % (', boundaries' if g else ''), [a, b], 'greedy_insertion', 5, ['A'], S=S, exact=bool(g))
    for perm in ((0, 1, 2), (2, 0, 1)):
        S = Syms()
        w = wsym(S, ['0', '1', '2'])
        a = Req('A', w[:1], 1e9, S.f('da', 0.25, 2), 'hr', 3, -1000)
        b = Req('B', w[1:2], 1e9, S.f('db', 0.25, 2), 'dy', 5, -1000, sch=(0, S.f('sb', 0, 12)))
        c = Req('C', w[2:3], 1e9, S.f('dc', 360, 2880), 'min', 1, -1000, sch=(0, S.f('sc', 0, 12)))
        insertion_case(ctx, k, 'two scheduled, one new, order %s' % (perm,), [a, b, c], 'greedy_insertion', 5, ['A'], S=S, perm=perm)
    # several new requests: processing order, limit of insertions, conflicts among them
    for number in (0, 1, 2) + ((9,) if ctx.deep else ()):
        S = Syms()
        w = wsym(S, ['0', '1', '2'])
        a = Req('A', w[:1], S.f('dl', 0, 14), S.f('da', 0.25, 2), 'dy', 2, S.i('q', -12, 11))
        b = Req('B', w[1:], 1e9, S.f('db', 0.25, 2), 'dy', 7, -1000)
        for op, order in (('greedy_insertion', ['B', 'A']), ('minimum_opportunity_insertion', ['A', 'B'])):
            for perm in ((0, 1), (1, 0)):
                insertion_case(ctx, k, '%s of %d, order %s' % (op, number, perm), [a, b], op, number, order, S=S, perm=perm)
    for perm in ((0, 1, 2), (2, 1, 0), (1, 2, 0)) if ctx.deep else ((1, 2, 0),):
        S = Syms()
        w = wsym(S, ['0', '1', '2'])
        rs = [Req('ABC'[i], w[i:i + 1], 1e9, S.f('d%d' % i, 0.25, 2), 'dy', (2, 9, 4)[i], -1000) for i in range(3)]
        insertion_case(ctx, k, 'three requests by priority, order %s' % (perm,), rs, 'greedy_insertion', 2, ['B', 'C', 'A'], S=S, perm=perm)
    # windows tried in order of conflict
    for perm, nb in (((1, 0), 0),) + ((((0, 1), 0), ((0, 1), 1)) if ctx.deep else ()):
        S = Syms()
        w = wsym(S, ['0', '1', '2'][:2 + nb])
        a = Req('A', w[:2], 1e9, S.f('da', 0.25, 2), 'dy', 2, -1000)
        b = Req('B', w[2:] or [(3.0, 5.0)], -1.0, 0.25, 'dy', 7, -1000)
        rs = [a, b]

        def vorder(v, i):
            ws = {r.name: [(at(x, v, i), at(y, v, i)) for x, y in r.windows] for r in rs}
            out = {}
            for r in rs:
                ds = [degree(x, ws.values()) for x in ws[r.name]]
                out[r.name] = sorted(range(len(ds)), key=lambda q: (ds[q], q))
            return out
        insertion_case(ctx, k, 'windows by conflict, order %s%s' % (perm, ', moving' * nb), rs, 'minimum_conflict_insertion', 5, [rs[q].name for q in perm], vorder, S=S, perm=perm, budget=400)
    for name, n, S in crowds(ctx):
        rs = crowd(n, n)
        prio = {r.name: r.priority for r in rs}
        order = sorted(prio, key=lambda x: -prio[x])
        for number in (n // 4, 2 * n):
            insertion_case(ctx, k, '%s, greedy insertion of %d' % (name, number), rs, 'greedy_insertion', number, order, S=S, n=3)
    S = Syms()
    S.f('u', 0, 1)
    counts = random.Random(5).sample(range(9), 9)
    rs = crowd(9, 9, counts)
    insertion_case(ctx, k, 'nine requests, minimum opportunity insertion', rs, 'minimum_opportunity_insertion', 4, [r.name for r in sorted(rs, key=lambda r: len(r.windows))], S=S, n=3)
    rs = crowd(9, 9, [2, 3, 0, 1, 4, 1, 2, 0, 3])
    ws = {r.name: r.windows for r in rs}
    vo = {nm: sorted(range(len(x)), key=lambda q: degree(x[q], ws.values())) for nm, x in ws.items()}
    insertion_case(ctx, k, 'nine requests, minimum conflict insertion', rs, 'minimum_conflict_insertion', 4, [r.name for r in rs], lambda v, i: vo, S=S, n=3)
    return ctx.finish('other', RULE, 12)


ACC = {'is_scheduled': 'is_request_scheduled', 'vtw_index': 'vtw_index', 'scheduled_start_time': 'start_time', 'scheduled_duration': 'scheduled_duration', 'deadline': 'deadline',
       'duration': 'duration', 'priority': 'priority', 'quality': 'image_quality', 'look_angle': 'look_angle', 'vtw_list': 'vtw_list'}


@guarded
def k02(ctx):
    """The handler keeps requests, schedules and counters in step over every history."""
    k = K(ctx)
    I = ctx.I
    S = Syms()
    t = [S.f('t%d' % i, 1, 5) for i in range(4)]
    w = [(0.0, 10.0), (2.0, 12.0)]
    ops = [('s', 0), ('s', 1), ('u', 0), ('u', 1), ('U', None), ('a', None)]
    depth = 4 if ctx.deep else 3

    def namer(i):
        return 'AB'[i] if i < 2 else 'N%d' % i

    def model(seq, n=2):
        st = {}
        for p, (o, i) in enumerate(seq):
            if o == 's':
                st[i] = p
            elif o == 'u':
                st.pop(i, None)
            elif o == 'U':
                st = {}
            else:
                n += 1
        return st, n
    def tag(seq):
        return (' '.join(o + ('' if i is None else str(i)) for o, i in seq) if len(seq) < 8 else '%d operations' % len(seq)) + ': '

    def histories(name, seqs, n0=2):
        def build(S):
            out = {}
            for q, seq in enumerate(seqs):
                h = H(ctx, k, [Req(namer(i), w) for i in range(n0)])
                n = n0
                for p, (o, i) in enumerate(seq):
                    if o == 's':
                        ctx.meth(h.h, 'schedule_request', i, p % 2, k.q(t[p % 4], 'jd2000'), k.q(T.add(t[p % 4], 20.0), 's'))
                    elif o == 'u':
                        ctx.meth(h.h, 'unschedule_request', i)
                    elif o == 'U':
                        ctx.meth(h.h, 'unschedule_all_requests')
                    else:
                        r = Req(namer(n), w)
                        r.vt = h.reqs[0].vt
                        h.reqs.append(r)
                        g = [r.name, k.q(1.0, 'jd2000'), k.q(30.0, 's'), 1, 1, None, ctx.lst(r.vt)]
                        h.given[r.name] = g[:6]
                        ctx.meth(h.h, 'add_request', *g)
                        n += 1
                o = {}
                h.read(o)
                for i, r in enumerate(h.reqs):
                    req = I.getitem(h.h, i)
                    out[tag(seq) + 'accessors ' + r.name] = all(h.same(ctx.meth(h.h, m, i), h.field(req, f)) for f, m in ACC.items()) and h.field(req, 'location') == r.name
                out[tag(seq) + 'number_of_requests'] = ctx.get(h.h, 'number_of_requests')
                out.update({tag(seq) + l: x for l, x in o.items()})
            return out

        def ref(v):
            e = {}
            for seq in seqs:
                st, n = model(seq, n0)
                names = [namer(i) for i in range(n)]
                e[tag(seq) + 'number_of_requests'] = n
                e[tag(seq) + 'n'] = n
                e[tag(seq) + 'order'] = ' '.join(names)
                e[tag(seq) + 'count'] = len(st)
                for i, nm in enumerate(names):
                    e[tag(seq) + 'scheduled ' + nm] = i in st
                    e[tag(seq) + 'kept ' + nm] = True
                    e[tag(seq) + 'accessors ' + nm] = True
                    if i in st:
                        e[tag(seq) + 'window ' + nm] = st[i] % 2
                        e[tag(seq) + 'start ' + nm] = v['t%d' % (st[i] % 4)]
                        e[tag(seq) + 'duration ' + nm] = (v['t%d' % (st[i] % 4)] + 20) / 86400
                    else:
                        e[tag(seq) + 'blank ' + nm] = True
            return e
        ctx.case(name, build, ref, S=S, n=4, where=FH, seeds=False)
    for first in ops:
        histories('histories starting with %s%s' % (first[0], '' if first[1] is None else first[1]), [(first,) + r for d in range(depth) for r in itertools.product(ops, repeat=d)])
    # long histories with many requests
    for n in ctx.wide('schedule', most=300):
        rnd, seqs = random.Random(n), []
        for length in (n, 3 * n):
            m, seq = n, []
            for _ in range(length):
                o = rnd.choice('sssssuuaa' if len(seq) != length // 3 else 'U')
                seq.append((o, rnd.randrange(m) if o in 'su' else None))
                m += o == 'a'
            seqs.append(tuple(seq))
        histories('long histories, %d requests' % n, seqs, n)
    # iteration
    def build(S):
        out = {}
        for n in (0, 1, 3):
            h = H(ctx, k, [Req('ABC'[i], w) for i in range(n)])
            qs = [I.getitem(h.h, i) for i in range(n)]
            out['iterate %d' % n] = list(I.libs.iterate(I, h.h)) == qs
            out['iterate again %d' % n] = list(I.libs.iterate(I, h.h)) == qs
            it1 = I.libs.mkiter(I, h.h)
            nx = lambda it: I.libs.BUILTINS['next'].fn(I, [it], {})
            got = [nx(it1) for _ in qs[:1]]
            it2 = I.libs.mkiter(I, h.h)
            got += [nx(it2) for _ in qs[:1]] + [nx(it1) for _ in qs[1:2]]
            out['nested %d' % n] = got == qs[:1] + qs[:1] + qs[1:2]
            out['len %d' % n] = I.libs.len_(I, h.h)
        return out
    ctx.case('iteration', build, lambda v: {l % n: True for l in ('iterate %d', 'iterate again %d', 'nested %d') for n in (0, 1, 3)} | {'len %d' % n: n for n in (0, 1, 3)}, S=S, n=3, where=FH)
    return ctx.finish('other', RULE + ' Histories of handler operations are enumerated up to the stated length.', 5)


OPS = {'priority_removal': 'priority', 'opportunity_removal': 'opportunity', 'conflict_removal': 'conflict', 'random_removal': None}


@guarded
def k03(ctx):
    """Removal operators."""
    k = K(ctx)
    I = ctx.I
    S0 = Syms()
    s = [S0.f('s%d' % i, 1, 5) for i in range(3)]
    prio = (2, 9, 4)
    nw = (2, 1, 3)
    # windows with distinct conflict degrees
    far = [[(0.0, 10.0), (100.0, 101.0)], [(200.0, 203.0)], [(300.0, 301.0), (400.0, 405.0), (500.0, 501.0)]]
    sched_w = (0, 0, 1)
    deg = (10.0, 3.0, 5.0)
    for op, what in OPS.items():
        for mask in itertools.product((0, 1), repeat=3):
            for n in (0, 1, 2, 3, 5):
                m = sum(mask)
                rs = [Req('ABC'[i], far[i], priority=prio[i], sch=(sched_w[i], s[i]) if mask[i] else None) for i in range(3)]

                def build(S):
                    h = H(ctx, k, rs)
                    r = ctx.call(ctx.name(REM + op), h.h, n)
                    out = {'returned': r == h.h}
                    h.read(out)
                    if n == 0 and op == 'random_removal':
                        out['order'] = out['order']
                    return out
                key = {'priority': prio, 'opportunity': nw, 'conflict': [d * q for d, q in zip(deg, mask)], None: None}[what]
                e = {'returned': True, 'n': 3, 'count': m - min(n, m)}
                for i in range(3):
                    e['kept ' + 'ABC'[i]] = True
                if what is not None:
                    first = sorted((i for i in range(3) if mask[i]), key=lambda i: -key[i])[:n]
                    for i in range(3):
                        on = bool(mask[i]) and i not in first
                        e['scheduled ' + 'ABC'[i]] = on
                        if on:
                            e['window ' + 'ABC'[i]] = sched_w[i]
                        else:
                            e['blank ' + 'ABC'[i]] = True

                def ref(v):
                    d = dict(e)
                    if what is not None:
                        d.update({'start ' + 'ABC'[i]: v['s%d' % i] for i in range(3) if e['scheduled ' + 'ABC'[i]]})
                    return d

                def rel(v, G, p):
                    if '!raise' in G or what is not None:
                        return None
                    out = {}
                    left = np.zeros(v['_n'])
                    for i in range(3):
                        nm = 'ABC'[i]
                        on = np.asarray(G['scheduled ' + nm], bool)
                        left = left + on
                        out['only scheduled requests stay scheduled'] = out.get('only scheduled requests stay scheduled', True) & (~on | bool(mask[i]))
                        if 'start ' + nm in G:
                            out['schedule kept ' + nm] = (np.abs(np.asarray(G['start ' + nm], float) - v['s%d' % i]) < 1e-12) & (np.asarray(G['window ' + nm], float) == sched_w[i])
                        else:
                            out['blank ' + nm] = np.asarray(G['blank ' + nm], bool)
                    out['exactly the requested number is removed'] = left == m - min(n, m)
                    return out

                def reach(outs):
                    if what is not None or not 0 < n < m:
                        return []
                    bad = []
                    for i in range(3):
                        if mask[i]:
                            if all(o[0] == 'return' and o[1].get('scheduled ' + 'ABC'[i]) is True for o in outs):
                                bad.append(('every scheduled request can be removed', 'no sequence of random choices removes request %d' % i))
                            if all(o[0] == 'return' and o[1].get('scheduled ' + 'ABC'[i]) is False for o in outs):
                                bad.append(('every scheduled request can stay', 'every sequence of random choices removes request %d' % i))
                    return bad
                ctx.case('%s of %d, scheduled %s' % (op, n, ''.join(map(str, mask))), build, ref, rel=rel, S=S0, n=3, where=FR, seeds=False, agg=reach)
    # many requests
    for name, n, S in crowds(ctx):
        for op, what in list(OPS.items())[:3]:
            if what == 'opportunity' and n > 12:
                continue
            rs = crowd(n, n + 1, list(range(n)) if what == 'opportunity' else None)
            on = [r for r in rs if r.sch]
            ws = [r.windows for r in rs]
            key = {'priority': lambda r: r.priority, 'opportunity': lambda r: len(r.windows), 'conflict': lambda r: degree(r.windows[r.sch[0]], ws)}[what]
            for number in (len(on) // 2, len(on) - 1, n):
                gone = {r.name for r in sorted(on, key=lambda r: -key(r))[:number]}

                def build(S, rs=rs, op=op, number=number):
                    h = H(ctx, k, rs)
                    out = {'returned': ctx.call(ctx.name(REM + op), h.h, number) == h.h}
                    return h.read(out)

                def ref(v, rs=rs, gone=gone):
                    e = {'returned': True, 'n': len(rs), 'count': sum(bool(r.sch) and r.name not in gone for r in rs)}
                    for r in rs:
                        e['kept ' + r.name] = True
                        e['scheduled ' + r.name] = bool(r.sch) and r.name not in gone
                        if e['scheduled ' + r.name]:
                            e.update({'window ' + r.name: r.sch[0], 'start ' + r.name: r.sch[1]})
                        else:
                            e['blank ' + r.name] = True
                    return e
                ctx.case('%s, %s of %d' % (name, op, number), build, ref, S=S, n=3, where=FR, seeds=False)
    # conflict removal with windows in general position
    S = Syms()
    w = wsym(S, ['0', '1'])
    rs = [Req('AB'[i], w[i:i + 1], sch=(0, S.f('u%d' % i, 1, 5))) for i in range(2)]

    def build(S):
        h = H(ctx, k, rs)
        ctx.call(ctx.name(REM + 'conflict_removal'), h.h, 1)
        return h.read({})

    def rel(v, G, p):
        if '!raise' in G:
            return None
        N = v['_n']
        ok = np.ones(N, bool)
        for i in range(N):
            ws = [[(at(a, v, i), at(b, v, i))] for a, b in w]
            d = [degree(x[0], ws) for x in ws]
            if abs(d[0] - d[1]) > 1e-7:
                ok[i] = bool(np.asarray(G['scheduled A'])[i]) == (d[0] < d[1])
        return {'the request of greatest conflict is removed': ok}
    ctx.case('conflict removal, any windows', build, lambda v: {'count': 1}, rel=rel, S=S, n=300, where=FR)
    return ctx.finish('other', RULE + ' Random choices are nondeterministic: every sequence of choices is a trace.', 100)


SORTS = ('sort_by_decreasing_priority', 'sort_by_decreasing_opportunity', 'sort_by_increasing_opportunity', 'sort_by_decreasing_conflict_degree',
         'sort_vtws_by_increasing_conflict_degree', 'sort_vtws_by_increasing_rise_time')


def after_sort(ctx, k, name, rs, meth, S, key, of_windows=False, n=200, budget=150, perm=None, between=None):
    """The order after a sort is by `key`, nothing is lost, and every schedule refers to the same window."""
    def build(S):
        h = H(ctx, k, rs, perm, between)
        ctx.meth(h.h, meth)
        return h.read({})

    def rel(v, G, p):
        if '!raise' in G:
            return None
        N = v['_n']
        ok = {l: np.ones(N, bool) for l in ('sorted', 'nothing lost', 'schedules kept')}
        for i in range(N):
            g = lambda l: np.asarray(G[l])[i]
            order = str(g('order')).split()
            ok['nothing lost'][i] &= sorted(order) == sorted(r.name for r in rs)
            ks = key(v, i)
            if not of_windows:
                x = [ks[nm] for nm in order]
                ok['sorted'][i] &= all(a <= b + 1e-9 for a, b in zip(x, x[1:]))
            elif perm is None and not between:
                ok['nothing lost'][i] &= order == [r.name for r in rs]
            for r in rs:
                ws = [int(q) for q in str(g('windows ' + r.name)).split()]
                ok['nothing lost'][i] &= sorted(ws) == list(range(len(r.windows))) and bool(g('kept ' + r.name))
                if of_windows:
                    x = [ks[r.name][q] for q in ws]
                    ok['sorted'][i] &= all(a <= b + 1e-9 for a, b in zip(x, x[1:]))
                elif not between:
                    ok['nothing lost'][i] &= ws == sorted(ws)
                on = bool(g('scheduled ' + r.name))
                ok['schedules kept'][i] &= on == bool(r.sch) and (not on or int(g('window ' + r.name)) == r.sch[0] and abs(float(g('start ' + r.name)) - at(r.sch[1], v, i)) < 1e-12)
        ok['counter'] = np.asarray(G['count'], float) == sum(bool(r.sch) for r in rs)
        return ok
    ctx.case(name, build, lambda v: {}, rel=rel, S=S, n=n, where=FH, budget=budget)


@guarded
def k04(ctx):
    """Sorting requests and windows."""
    k = K(ctx)
    far = [(0.0, 1.0), (10.0, 12.0), (20.0, 23.0)]
    for nr in (1, 2, 3):
        S = Syms()
        ps = [S.i('p%d' % i, 1, 5) for i in range(nr)]
        st = S.f('st', 0, 30)
        rs = [Req('ABC'[i], far[:1 + i], priority=ps[i], sch=(i, st) if i != 1 else None) for i in range(nr)]
        after_sort(ctx, k, '%d requests by priority' % nr, rs, SORTS[0], S, lambda v, i: {'ABC'[q]: -at(ps[q], v, i) for q in range(nr)})
    S = Syms()
    st = S.f('st', 0, 30)
    for counts in itertools.product((0, 1, 2, 3), repeat=3):
        rs = [Req('ABC'[i], far[:c], sch=(c - 1, st) if c and i != 2 else None) for i, c in enumerate(counts)]
        for m, sg in ((SORTS[1], -1), (SORTS[2], 1)):
            after_sort(ctx, k, '%s, windows %s' % (m, counts), rs, m, S, lambda v, i: {'ABC'[q]: sg * counts[q] for q in range(3)}, n=3)
    # windows by rise time
    for sch in (None, 0, 1, 2):
        for nw in (2, 3):
            if sch == 2 and nw == 2:
                continue
            S = Syms()
            w = wsym(S, [str(i) for i in range(nw)])
            st = S.f('st', 0, 30)
            rs = [Req('A', w, sch=None if sch is None else (sch, st)), Req('B', far, sch=(1, st)), Req('C', far[::-1], sch=(0, st)), Req('D', [])]

            def key(v, i):
                return {r.name: [at(x[0], v, i) for x in r.windows] for r in rs}
            after_sort(ctx, k, '%d windows by rise time, scheduled %s' % (nw, sch), rs, SORTS[5], S, key, True)
    # conflict degrees
    def degrees(v, i, rs):
        ws = {r.name: [(at(x, v, i), at(y, v, i)) for x, y in r.windows] for r in rs}
        return {nm: [degree(x, ws.values()) for x in xs] for nm, xs in ws.items()}
    for sch in (None, 0, 1):
        S = Syms()
        w = wsym(S, ['0', '1'])
        st = S.f('st', 0, 30)
        rs = [Req('A', w, sch=None if sch is None else (sch, st)), Req('B', [(3.0, 5.0)])]
        after_sort(ctx, k, 'windows by conflict, scheduled %s' % sch, rs, SORTS[4], S, lambda v, i: degrees(v, i, rs), True)
    # windows on a grid, so that they touch, coincide and tie
    for sch in (None, 1):
        S = Syms()
        w = wsym(S, ['0', '1'], hi=6, grid=0.5)
        st = S.f('st', 0, 30)
        rsg = [Req('A', w, sch=None if sch is None else (sch, st)), Req('B', [(3.0, 5.0)])]
        after_sort(ctx, k, 'windows on a grid by conflict, scheduled %s' % sch, rsg, SORTS[4], S, lambda v, i: degrees(v, i, rsg), True, n=500)
    S = Syms()
    w = wsym(S, ['0', '1', '2'])
    rs3 = [Req('A', w), Req('B', [])]
    after_sort(ctx, k, 'three windows by conflict', rs3, SORTS[4], S, lambda v, i: degrees(v, i, rs3), True)
    # equal degrees, identical windows
    S = Syms()
    st = S.f('st', 0, 30)
    for nm, ws in (('equal', [(0.0, 2.0), (10.0, 12.0), (20.0, 22.0)]), ('identical', [(0.0, 2.0)] * 3), ('touching', [(0.0, 2.0), (2.0, 4.0), (4.0, 6.0)]), ('nested', [(0.0, 9.0), (1.0, 8.0), (2.0, 3.0)])):
        rs = [Req('A', ws, sch=(1, st)), Req('B', ws[:1], sch=(0, st)), Req('C', ws[1:])]
        for m in SORTS[3:]:
            def key(v, i, m=m, rs=rs):
                d = degrees(v, i, rs)
                if m == SORTS[3]:
                    return {r.name: -d[r.name][r.sch[0]] if r.sch else 0.0 for r in rs}
                return d if m == SORTS[4] else {r.name: [x for x, _ in r.windows] for r in rs}
            after_sort(ctx, k, '%s windows, %s' % (nm, m), rs, m, S, key, m != SORTS[3], n=3)
    for sch, gr in (((0, 0), None), ((0, None), None), ((None, 0), None), ((0, 0), 0.5), ((0, None), 0.5)):
        S = Syms()
        w = wsym(S, ['0', '1'], hi=6, grid=gr)
        st = S.f('st', 0, 30)
        rs = [Req('AB'[i], w[i:i + 1], sch=None if sch[i] is None else (0, st)) for i in range(2)] + [Req('C', [(3.0, 5.0)])]

        def key(v, i, rs=rs):
            d = degrees(v, i, rs)
            return {r.name: -d[r.name][0] if r.sch else 0.0 for r in rs}
        after_sort(ctx, k, 'requests by conflict, scheduled %s%s' % (sch, ', grid' if gr else ''), rs, SORTS[3], S, key, n=500 if gr else 200)
    # a handler that was sorted, scheduled and unscheduled before its last request came
    for order in (SORTS, SORTS[::-1]):
        def between(h, order=order):
            for m in order:
                ctx.meth(h, m)
            for i in (0, 1):
                ctx.meth(h, 'schedule_request', i, 0, k.q(3.0, 'jd2000'), k.q(0.5, 'dy'))
            for m in order:
                ctx.meth(h, m)
            ctx.meth(h, 'unschedule_request', 0)
            ctx.meth(h, 'unschedule_all_requests')
        for m, last in [(m, x) for m in SORTS for x in ((None,) if m not in SORTS[3:5] else ([(3.5, 4.5)], [(8.0, 21.0), (-1.0, 1.0)], []))]:
            S = Syms()
            w = last if last is not None else wsym(S, ['0'], hi=6)
            pr, st = S.i('pr', 1, 9), S.f('st', 0, 30)
            rs = [Req('A', [(0.0, 4.0), (3.0, 9.0)], priority=4, sch=(1, st)), Req('B', [(3.0, 5.0), (-1.0, 2.0), (20.0, 22.0)], priority=6, sch=(0, st)), Req('C', w, priority=pr, sch=(0, st) if w else None)]

            def key(v, i, m=m, rs=rs):
                d = degrees(v, i, rs)
                return {SORTS[0]: lambda: {'A': -4, 'B': -6, 'C': -at(pr, v, i)}, SORTS[1]: lambda: {r.name: -len(r.windows) for r in rs}, SORTS[2]: lambda: {r.name: len(r.windows) for r in rs},
                        SORTS[3]: lambda: {r.name: -d[r.name][r.sch[0]] if r.sch else 0.0 for r in rs}, SORTS[4]: lambda: d, SORTS[5]: lambda: {r.name: [at(x, v, i) for x, _ in r.windows] for r in rs}}[m]()
            after_sort(ctx, k, '%s after %s and other operations%s' % (m, 'sorting' if order is SORTS else 'reverse sorting', '' if last is None else ', added %s' % last), rs, m, S, key, m in SORTS[4:], between=between, n=60)
    # many requests
    for name, n, S in crowds(ctx, most=60):
        rs = crowd(n, n + 2)
        if n > 20:
            for r in rs:
                r.priority = r.priority % 7
        d = {r.name: [degree(x, [q.windows for q in rs]) for x in r.windows] for r in rs}
        for m in SORTS:
            K_ = {SORTS[0]: {r.name: -r.priority for r in rs}, SORTS[1]: {r.name: -len(r.windows) for r in rs}, SORTS[2]: {r.name: len(r.windows) for r in rs},
                  SORTS[3]: {r.name: -d[r.name][r.sch[0]] if r.sch else 0.0 for r in rs}, SORTS[4]: d, SORTS[5]: {r.name: [x for x, _ in r.windows] for r in rs}}[m]
            after_sort(ctx, k, '%s, %s' % (name, m), rs, m, S, lambda v, i, K_=K_: K_, m in SORTS[4:], n=3)
    return ctx.finish('other', RULE, 100)


@guarded
def k05(ctx):
    """Image quality and the guards of an insertion."""
    k = K(ctx)
    S = Syms()
    a, L, b, x = S.f('a', 2450000, 2460000), S.f('L', 1e-3, 1e-2), S.f('b', 0, 1), S.f('x', 0, 1, special=[0, 0.5, 1])
    s = S.f('s', 0, 1)
    q = S.i('q', -3, 12)

    def post(v):
        v['b'] = np.asarray(v['a'], float) + np.asarray(v['L'], float)
        v['s'] = np.asarray(v['a'], float) + np.asarray(v['L'], float) * np.asarray(v['x'], float)
        return v
    S.post = post
    VT = ctx.name(HAN + 'VisibleTimeWindow')

    def build(S):
        w = ctx.call(VT, a, b, None)
        Q = ctx.call(ctx.name(INS + 'image_quality'), w, k.q(s, 'jd2000'))
        return {'q': Q, 'met': ctx.call(ctx.name(INS + 'is_image_quality_met'), w, k.q(s, 'jd2000'), q)}

    def rel(v, G, p):
        if '!raise' in G:
            return None
        z = 10 - 18 * np.abs(v['s'] - (v['a'] + v['b']) / 2) / (v['b'] - v['a'])
        Q = np.asarray(G['q'], float)
        near = np.abs(z - np.round(z)) < 1e-4
        return {'scale': near | (Q == np.floor(z)), 'integer': Q == np.floor(Q), 'range': (Q <= 10) & (Q >= 1 - near), 'met': np.asarray(G['met'], bool) == (Q >= v['q'])}
    ctx.case('image quality', build, lambda v: {}, rel=rel, S=S, n=400, where=FI)
    S = Syms()
    a, b, c = S.f('a', 0, 8, grid=0.25), S.f('b', 0, 8, grid=0.25), S.f('c', 0, 8, grid=0.25)
    s, d = S.f('s', 0, 8, grid=0.25), S.f('d', 0.25, 4, grid=0.25)

    def build(S):
        w = ctx.call(VT, a, b, None)
        st, du = k.q(s, 'jd2000'), k.q(d, 'jd2000')
        return {'within': ctx.call(ctx.name(INS + 'is_window_within_vtw_bounds'), st, du, w), 'deadline': ctx.call(ctx.name(INS + 'does_window_meet_deadline'), st, du, k.q(c, 'jd2000'))}
    ctx.case('bounds and deadline', build, lambda v: {'within': (v['a'] < v['s']) & (v['s'] + v['d'] < v['b']), 'deadline': v['s'] + v['d'] < v['c']}, S=S, n=400, where=FI, edges='exact')
    # conflict with one or two scheduled requests is exactly overlap, in whatever units the durations are
    for ns in (0, 1, 2):
        for g, u in ((0.25, 'dy'), (None, 'min')):
            S = Syms()
            s, d = S.f('s', 0, 8, grid=g), S.f('d', 0.25, 4, grid=g)
            rs = [Req('ABC'[i], [(0.0, 20.0)], duration=S.f('d%d' % i, 0.25, 4, grid=g) if u == 'dy' else S.f('d%d' % i, 360, 5760), unit=u, sch=(0, S.f('s%d' % i, 0, 8, grid=g))) for i in range(ns)] + [Req('C', [(0.0, 20.0)])]

            def build(S, rs=rs, s=s, d=d):
                h = H(ctx, k, rs)
                out = {'c': ctx.call(ctx.name(INS + 'does_conflict_exist'), h.h, k.q(s, 'jd2000'), k.q(d, 'jd2000'))}
                return h.read(out)

            def ref(v, rs=rs, ns=ns, u=u):
                c = np.zeros(v['_n'], bool)
                for i in range(ns):
                    di = v['d%d' % i] / (1 if u == 'dy' else 1440)
                    c |= (v['s'] < v['s%d' % i] + di) & (v['s%d' % i] < v['s'] + v['d'])
                return {'c': c, 'count': ns}
            ctx.case('conflict with %d in %s' % (ns, u), build, ref, S=S, n=400, where=FI, edges='exact' if g else 'ignore')
    # the observation that counts is the scheduled one, not the requested one
    S = Syms()
    s, d, s0, d0, d1 = S.f('s', 0, 8, grid=0.25), S.f('d', 0.25, 4, grid=0.25), S.f('s0', 0, 8, grid=0.25), S.f('d0', 0.25, 4, grid=0.25), S.f('d1', 0.25, 4, grid=0.25)

    def build(S):
        h = H(ctx, k, [Req('A', [(0.0, 20.0)], duration=d1)])
        ctx.meth(h.h, 'schedule_request', 0, 0, k.q(s0, 'jd2000'), k.q(d0, 'dy'))
        return {'c': ctx.call(ctx.name(INS + 'does_conflict_exist'), h.h, k.q(s, 'jd2000'), k.q(d, 'jd2000'))}
    ctx.case('scheduled for another duration', build, lambda v: {'c': (v['s'] < v['s0'] + v['d0']) & (v['s0'] < v['s'] + v['d'])}, S=S, n=400, where=FI, edges='exact')
    return ctx.finish('other', RULE, 5)


@guarded
def k06(ctx):
    """Requested look angles."""
    k = K(ctx)
    A = ctx.name('celest.coordinates.frames.attitude.Attitude')

    def one(name, n, lo, hi, mono, unit='deg', hits=False):
        S = Syms()
        R, gr = (3, 1.0) if hits else (40, None)
        t = [S.f('t%d' % i, 0, n) for i in range(n)]
        p = [S.f('p%d' % i, -R, R, grid=gr) for i in range(n)]
        for i in range(n):
            S.f('tb%d' % i, 0, 1), S.f('pb%d' % i, -R, R, grid=gr)
        look = S.f('look', -R, R, grid=gr)
        du = S.f('du', 0.1, 1.5)

        def post(v):
            P = np.stack([np.asarray(v['pb%d' % i], float) for i in range(n)])
            if mono:
                P = np.sort(P, 0)[::mono]
            for i in range(n):
                v['t%d' % i] = 0.25 * np.asarray(v['tb%d' % i], float) + i
                v['p%d' % i] = P[i]
            return v
        S.post = post
        f = {'deg': 1.0, 'rad': 180 / np.pi}[unit]

        def build(S):
            for i in range(n - 1):
                ctx.I.assume(T.lt(t[i], t[i + 1]))
            z = ctx.arr([0.0] * n)
            att = ctx.call(A, ctx.arr(t), z, ctx.arr([T.div(x, f) for x in p]), z, k.unit(unit), None)
            h = H(ctx, k, [Req('A', [(t[lo], t[hi])], duration=du, look=look, att=[att])])
            ctx.call(ctx.name(INS + 'greedy_insertion'), h.h, 1)
            return h.read({})

        def rel(v, G, _):
            if '!raise' in G:
                return None
            N = v['_n']
            ok = {l: np.ones(N, bool) for l in ('start is where the look angle is crossed', 'scheduled exactly when feasible')}
            for i in range(N):
                d = [float(v['p%d' % q][i]) - float(v['look'][i]) for q in range(n)]
                T_ = [float(v['t%d' % q][i]) for q in range(n)]
                L = float(v['du'][i])
                if min(abs(x) for x in d) < 1e-6 and not hits:
                    continue
                # with samples exactly at the angle, either side of the hit is the crossing
                cand = [q for q in range(lo, hi) if (d[q] * d[q + 1] <= 0 if hits else d[q] * d[q + 1] < 0)]
                fits = [q for q in cand if T_[lo] < T_[q] and T_[q] + L < T_[hi]]
                near = any(abs(T_[q] + L - T_[hi]) < 1e-7 for q in cand)
                on = bool(np.asarray(G['scheduled A'])[i])
                if near:
                    continue
                if on:
                    s = float(np.asarray(G['start A'])[i])
                    ok['start is where the look angle is crossed'][i] = any(abs(s - T_[q]) < 1e-9 for q in fits)
                elif mono or len(cand) == 1:
                    ok['scheduled exactly when feasible'][i] = not cand or len(fits) < len(cand)
                if on and d[lo] * d[hi] > 0:
                    ok['scheduled exactly when feasible'][i] = False
            return ok
        ctx.case(name, build, lambda v: {}, rel=rel, S=S, n=400, where=FI)
    for n, lo, hi in ((4, 0, 3), (5, 0, 4), (5, 1, 4), (5, 1, 3), (6, 0, 5)) + (((8, 0, 7), (8, 2, 6)) if ctx.deep else ()):
        for mono in (1, -1, 0):
            one('%d samples, window %d-%d, %s pitch' % (n, lo, hi, {1: 'rising', -1: 'falling', 0: 'any'}[mono]), n, lo, hi, mono)
    one('pitch in radians', 5, 0, 4, 1, 'rad')
    for mono in (1, -1, 0):
        one('samples at the angle, %s pitch' % {1: 'rising', -1: 'falling', 0: 'any'}[mono], 5, 0, 4, mono, hits=True)
        one('samples at the angle, inner window, %s pitch' % {1: 'rising', -1: 'falling', 0: 'any'}[mono], 6, 1, 5, mono, hits=True)
    return ctx.finish('other', RULE, 8)


def proportional(ws, w):
    """ws (the weights of a random choice) are proportional to w, or uniform when all of w vanish."""
    tot = sum(w)
    n = len(w)
    d = sum(ws)
    with np.errstate(all='ignore'):
        e = [np.where(tot == 0, 1.0 / n, x / np.where(tot == 0, 1, tot)) for x in w]
        return np.all([np.abs(x / d - y) < 1e-9 for x, y in zip(ws, e)], axis=0)


@guarded
def k07(ctx):
    """The adaptive large neighbourhood search."""
    from sa.values import BuiltinV
    k = K(ctx)
    I = ctx.I
    AL = ctx.name('celest.schedule.alns.ALNS')

    def run(name, iters, nd, nr, complete=False, n=400, zero=False, sign=-1, budget=300, earlier=0, close=False):
        S = Syms()
        if zero:
            c = [S.one_of('c%d' % i, [0.0, -1.0, -2.0, 1.0]) for i in range(iters + 1)]
        else:
            c = [S.f('c%d' % i, *((-10.1, -9.9) if close else (-20, -0.5) if sign < 0 else (0.5, 20))) for i in range(iters + 1)]
        p, l = S.f('p', 0.3, 1), S.f('l', 0, 1, special=[0, 1])
        fl = [S.b('f%d' % i) if complete else False for i in range(iters + 1)]

        def build(S):
            init = ctx.lst([ctx.lst([c[0], 0, fl[0], -1.0])])
            al = ctx.call(AL, init)
            log = []
            out = {}
            def item(v, i):
                return I.getitem(I.getitem(v, 0), i)

            # searches done before with the same object, other operators and other parameters
            for z in range(earlier):
                def lower(I, a, kw):
                    I.libs.setitem(I, I.getitem(a[0], 0), 3, item(a[0], 3) - 1.0)
                ctx.meth(al, 'add_cost_function', BuiltinV('cost', lambda I, a, kw: item(a[0], 3)))
                ctx.meth(al, 'add_completeness_function', BuiltinV('done', lambda I, a, kw: False))
                ctx.meth(al, 'add_destroy_functions', ctx.lst([BuiltinV('noop', lambda I, a, kw: None)] * (nd + z)))
                ctx.meth(al, 'add_repair_functions', ctx.lst([BuiltinV('lower', lower)] * (nr if not z else 1)))
                ctx.meth(al, 'solve', 1, 0.5, 0.25, 1, 2)

            def cost(I, a, kw):
                return item(a[0], 0)

            def done(I, a, kw):
                return item(a[0], 2)

            def snap():
                try:
                    return [[ctx.vals(x)[1][0] for x in I.libs.iterate(I, ctx.get(al, q))] for q in ('destroy_weights', 'repair_weights')]
                except RaiseEx:
                    # kept under another name: the weights still show in the choices
                    return []

            def mk(kind, i):
                def f(I, a, kw):
                    s = a[0]
                    if kind == 'd':
                        log.append({'d': i, 'from': item(s, 1), 'nd': a[1], 'w': snap(), 'ev': len(I.events), 'fresh': s != init})
                        return None
                    log[-1].update({'r': i, 'nr': a[1], 'at': len(I.events), 'same': True})
                    m = len(log)
                    for q, x in enumerate((c[m], m, fl[m])):
                        I.libs.setitem(I, I.getitem(s, 0), q, x)
                    return None
                return BuiltinV('%s%d' % (kind, i), f)
            ctx.meth(al, 'add_cost_function', BuiltinV('cost', cost))
            ctx.meth(al, 'add_completeness_function', BuiltinV('done', done))
            ctx.meth(al, 'add_destroy_functions', ctx.lst([mk('d', i) for i in range(nd)]))
            ctx.meth(al, 'add_repair_functions', ctx.lst([mk('r', i) for i in range(nr)]))
            ev0 = len(I.events)
            r = ctx.meth(al, 'solve', iters, p, l, 3, 5)
            out['best cost'] = item(r, 0)
            out['best id'] = item(r, 1)
            out['own copy'] = r != init
            out['initial kept'] = item(init, 0) is c[0] and item(init, 1) == 0
            out['iterations'] = len(log)
            for q, e in enumerate(log):
                out['from%d' % q] = e['from']
                out['numbers%d' % q] = (e['nd'], e['nr']) == (3, 5)
                out['fresh%d' % q] = e['fresh']
                out['d%d' % q], out['r%d' % q] = e['d'], e['r']
                end = log[q + 1]['ev'] if q + 1 < len(log) else len(I.events)
                draws = [x[2] for x in I.events[e['at']:end] if x[0] == 'random']
                out['draws%d' % q] = len(draws)
                for z, x in enumerate(draws):
                    out['draw%d.%d' % (q, z)] = x
                start = log[q - 1]['at'] if q else ev0
                ch = [x for x in I.events[start:e['ev']] if x[0] == 'choices' and x[2] is not None]
                for z, x in enumerate(ch):
                    for y, u in enumerate(x[2]):
                        out['p%d.%d.%d' % (q, z, y)] = ctx.vals(u)[1][0]
                out['choices%d' % q] = len(ch)
                for z, ws in enumerate(e['w']):
                    for y, u in enumerate(ws):
                        out['w%d.%d.%d' % (q, z, y)] = u
            return out

        def rel(v, G, path):
            if '!raise' in G:
                return None
            N = v['_n']
            C = [np.asarray(v['c%d' % i], float) for i in range(iters + 1)]
            F = [np.asarray(v['f%d' % i], bool) if complete else np.zeros(N, bool) for i in range(iters + 1)]
            its = int(np.atleast_1d(G['iterations'])[0])
            sel = lambda A, ix: np.choose(ix.astype(int), A)
            best, cur = np.zeros(N, int), np.zeros(N, int)
            ok = {'own copy': np.asarray(G['own copy'], bool), 'initial solution kept': np.asarray(G['initial kept'], bool)}
            fine = np.ones(N, bool)
            alive = ~F[0]
            temp = 0.05 * C[0] / math.log(0.5)
            W = [[np.ones(N)] * nd, [np.ones(N)] * nr]
            for q in range(its):
                ok['iteration %d only while incomplete' % (q + 1)] = alive
                ok['iteration %d starts from the current solution' % (q + 1)] = np.asarray(G['from%d' % q]).astype(float) == cur
                ok['iteration %d works on a copy' % (q + 1)] = np.asarray(G['fresh%d' % q], bool)
                ok['iteration %d numbers' % (q + 1)] = np.asarray(G['numbers%d' % q], bool)
                if 'w%d.0.0' % q in G:
                    ok['iteration %d weights' % (q + 1)] = np.all([np.abs(np.asarray(G['w%d.%d.%d' % (q, z, y)], float) - x) < 1e-9 for z in (0, 1) for y, x in enumerate(W[z])], axis=0)
                nch = int(np.atleast_1d(G['choices%d' % q])[0])
                for z in range(nch):
                    ps = []
                    while 'p%d.%d.%d' % (q, z, len(ps)) in G:
                        ps.append(np.asarray(G['p%d.%d.%d' % (q, z, len(ps))], float))
                    g = [proportional(ps, W[t]) for t in (0, 1) if len(W[t]) == len(ps)]
                    if g:
                        ok['iteration %d choice %d follows the weights' % (q + 1, z)] = np.any(g, axis=0) if nd == nr and nch < 2 else g[0] if nd != nr else g[z] if z < len(g) else np.any(g, axis=0)
                new = np.full(N, q + 1)
                cc, cn = sel(C, cur), C[q + 1]
                with np.errstate(all='ignore'):
                    P = np.exp(np.where(temp * cc == 0, -np.inf, 100 * (cn - cc) / np.where(temp * cc == 0, 1, temp * cc)))
                nd_ = int(np.atleast_1d(G['draws%d' % q])[0])
                lucky = np.zeros(N, bool)
                for z in range(nd_):
                    lucky |= np.asarray(G['draw%d.%d' % (q, z)], float) <= P
                acc = (cn <= cc) | (lucky & (temp * cc != 0))
                if not nd_:
                    ok['iteration %d acceptance is random for worse solutions' % (q + 1)] = (cn <= cc) | (temp * cc == 0)
                sb = cn < sel(C, best)
                score = np.where(sb, 3, np.where(acc & (cn < cc), 2, np.where(acc, 1, 0)))
                cur = np.where(acc, new, cur)
                best = np.where(sb, new, best)
                L = np.asarray(v['l'], float)
                W = [list(W[0]), list(W[1])]
                for z, nm in ((0, 'd'), (1, 'r')):
                    i = int(np.atleast_1d(G[nm + '%d' % q])[0])
                    W[z][i] = (1 - L) * W[z][i] + L * score / 6
                temp = temp * np.asarray(v['p'], float)
                alive = alive & ~sel(F, best)
            if its < iters:
                ok['stops early only when complete'] = ~alive
            ok['returns the best solution'] = np.asarray(G['best id']).astype(float) == best
            ok['cost of the best solution'] = np.abs(np.asarray(G['best cost'], float) - sel(C, best)) < 1e-9
            return ok
        ctx.case(name, build, lambda v: {}, rel=rel, S=S, n=n, where=FA, budget=budget, seeds=not zero, divs=True)
    run('no iterations', 0, 2, 2, True)
    run('one iteration', 1, 3, 2)
    run('one iteration, any completeness', 1, 2, 3, True)
    run('two iterations', 2, 2, 2)
    run('two iterations, any completeness', 2, 1, 2, True)
    run('two iterations, positive costs', 2, 2, 1, sign=1)
    run('two iterations, zero costs', 2, 1, 1, zero=True)
    run('three iterations', 3, 1, 1)
    run('one iteration after an earlier search', 1, 2, 2, earlier=1)
    run('two iterations after an earlier search, close costs', 2, 1, 1, earlier=1, close=True)
    run('two iterations, close costs', 2, 2, 1, close=True)
    run('three iterations, close costs', 3, 1, 1, close=True)
    run('one iteration after two earlier searches', 1, 1, 2, True, earlier=2)
    if ctx.deep:
        run('two iterations after an earlier search', 2, 2, 1, earlier=1)
        run('three iterations, several operators', 3, 2, 1)
        run('four iterations', 4, 1, 1, budget=1500)
    return ctx.finish('other', RULE + ' Operators and costs are uninterpreted: each iteration may produce any cost.', 4)


def ident(ctx, locs, x):
    """Index of a location among the given ones: the same object, or a copy with the same coordinates."""
    if x in locs:
        return locs.index(x)
    s = ctx.str(x)
    return next((i for i, l in enumerate(locs) if ctx.str(l) == s), -1)


class Plan:
    """A scheduler whose handler holds synthetic requests with windows and attitudes."""

    def __init__(self, ctx, k, S, nw, nt, g=None, prio=(2, 9, 4), windows=None, look=None):
        self.ctx, self.k, self.nt = ctx, k, nt
        self.nr = len(nw)
        self.t = [S.f('t%d' % i, 0, 20) for i in range(nt)]
        self.ang = [[S.f('%s%d' % (a, i), -80, 80) for i in range(nt)] for a in 'RPY']
        w = windows or wsym(S, [str(i) for i in range(sum(nw))])
        # a window given as None spans all samples
        w = [x or (self.t[0], self.t[-1]) for x in w]
        self.reqs = []
        for i, n in enumerate(nw):
            self.reqs.append(Req('ABC'[i], w[:n], look=None if i else look, duration=S.f('d%d' % i, 21600, 2 * 86400), unit='s', priority=prio[i]))
            w = w[n:]
        prev = S.post

        def post(v):
            if prev:
                v = prev(v)
            for i in range(nt):
                v['t%d' % i] = np.asarray(v['tb%d' % i], float) + 4.0 * i
            return v
        for i in range(nt):
            S.f('tb%d' % i, 0, 3.5)
        S.post = post

    def make(self, hold=0):
        from .coords import frame
        ctx, k, I = self.ctx, self.k, self.ctx.I
        for i in range(self.nt - 1):
            I.assume(T.lt(self.t[i], self.t[i + 1]))
        j = [2450000.0]
        sat = ctx.call(ctx.name('celest.satellite.Satellite'), frame(ctx, k, 'ITRS', j, [[7000.0], [0.0], [0.0]], 'km'), frame(ctx, k, 'ITRS', j, [[0.0], [7.0], [0.0]], ('/', 'km', 's')))
        sch = ctx.call(ctx.name('celest.schedule.scheduler.Scheduler'), sat, 10)
        self.locs = []
        for r in self.reqs:
            for a, b in r.windows:
                if isinstance(a, T.Term) or isinstance(b, T.Term):
                    I.assume(T.lt(a, b))
        for i in range(self.nr - hold):
            self.add(sch, i)
        return sch

    def add(self, sch, i):
        from .coords import location
        ctx, k, r = self.ctx, self.k, self.reqs[i]
        loc = location(ctx, k, 10.0 + 5 * i, -79.0, 0.1)
        self.locs.append(loc)
        # the attitude of request i is offset, so that mixing up requests shows
        att = ctx.call(ctx.name('celest.coordinates.frames.attitude.Attitude'), ctx.arr(self.t), *([ctx.arr([T.add(x, 100.0 * i) for x in row]) for row in self.ang] + [k.unit('deg'), loc]))
        vs = [ctx.call(ctx.name(HAN + 'VisibleTimeWindow'), a, b, att) for a, b in r.windows]
        look = None if r.look is None else k.q(r.look, 'deg')
        ctx.meth(ctx.get(sch, 'request_handler'), 'add_request', loc, k.q(r.deadline, 'jd2000'), k.q(r.duration, r.unit), r.priority, r.quality, look, ctx.lst(vs))

    def read(self, out, col):
        ctx, k, I = self.ctx, self.k, self.ctx.I
        ws = list(I.libs.iterate(I, col))
        out['kind'] = ctx.cls(col)
        out['count'] = len(ws)
        one = lambda q, un: ctx.vals(k.to(q, un))[1]
        for q, w in enumerate(ws):
            out['window kind %d' % q] = ctx.cls(w)
            out['request %d' % q] = ident(ctx, self.locs, ctx.get(w, 'location'))
            out['start %d' % q] = one(ctx.get(w, 'start_time'), 'jd2000')[0]
            out['duration %d' % q] = one(ctx.get(w, 'duration'), 's')[0]
            at = ctx.get(w, 'attitude')
            out['attitude location %d' % q] = ident(ctx, self.locs, ctx.get(at, 'location'))
            for a in ('roll', 'pitch', 'yaw', 'time'):
                xs = one(ctx.get(at, a), 'jd2000' if a == 'time' else 'deg')
                out['%s %d' % (a, q)] = xs[0]
                out['n %s %d' % (a, q)] = len(xs)
        return out

    def safe(self, v, G, exact=None):
        """Relations that hold for every returned plan; `exact(i)` gives the expected schedule."""
        N = v['_n']
        c = int(np.atleast_1d(G['count'])[0])
        L = ('observation windows', 'one per request', 'inside a window of the request', 'before the deadline', 'duration as requested', 'no overlaps', 'attitude of the nearest sample', 'attitude location')
        ok = {l: np.ones(N, bool) for l in L}
        col = lambda l, i: np.broadcast_to(np.asarray(G[l]), (N,))[i]
        if exact:
            ok['expected schedule'] = np.ones(N, bool)
        for i in range(N):
            seen, spans = {}, []
            edge = False
            for q in range(c):
                ok['observation windows'][i] &= col('window kind %d' % q, i) == 'ObservationWindow'
                ri = int(col('request %d' % q, i))
                if ri < 0 or ri in seen:
                    ok['one per request'][i] = False
                    continue
                r = self.reqs[ri]
                s, d = float(col('start %d' % q, i)), days(r, v, i)
                seen[ri] = s
                ok['inside a window of the request'][i] &= any(at(a, v, i) - 1e-7 < s and s + d < at(b, v, i) + 1e-7 for a, b in r.windows)
                ok['before the deadline'][i] &= s + d < at(r.deadline, v, i) + 1e-7
                ok['duration as requested'][i] &= abs(float(col('duration %d' % q, i)) - d * 86400) < 1e-4
                ok['no overlaps'][i] &= all(min(s + d, e) - max(s, b) < 1e-7 for b, e in spans)
                spans.append((s, s + d))
                ts = np.array([float(v['t%d' % z][i]) for z in range(self.nt)])
                gap = np.abs(ts - s)
                z = int(np.argmin(gap))
                if self.nt > 1 and np.sort(gap)[1] - np.sort(gap)[0] < 1e-7:
                    continue
                good = all(int(col('n %s %d' % (a, q), i)) == 1 for a in ('roll', 'pitch', 'yaw', 'time'))
                for a, p in (('roll', 'R'), ('pitch', 'P'), ('yaw', 'Y')):
                    good &= abs(float(col('%s %d' % (a, q), i)) - float(v['%s%d' % (p, z)][i]) - 100.0 * ri) < 1e-7
                good &= abs(float(col('time %d' % q, i)) - ts[z]) < 1e-9
                ok['attitude of the nearest sample'][i] &= good
                ok['attitude location'][i] &= int(col('attitude location %d' % q, i)) == ri
            if exact:
                st, margin = exact(i)
                want = {'ABC'.index(nm): x[1] for nm, x in st.items()}
                if margin > 1e-7:
                    ok['expected schedule'][i] &= set(want) == set(seen) and all(abs(want[q] - seen[q]) < 1e-8 for q in want)
        return ok


def rise_order(reqs, v, i):
    return {r.name: sorted(range(len(r.windows)), key=lambda q: (at(r.windows[q][0], v, i), q)) for r in reqs}


@guarded
def k08(ctx):
    """The plan the scheduler returns."""
    k = K(ctx)
    I = ctx.I
    for nw, nt, prio in (((1,), 3, (2,)), ((2,), 1, (5,)), ((1, 1), 2, (2, 9)), ((1, 1), 1, (9, 2)), ((2, 1), 1, (4, 5))) + ((((1, 1, 1), 1, (2, 9, 4)), ((2, 2), 1, (4, 5))) if ctx.deep else ()):
        S = Syms()
        P = Plan(ctx, k, S, nw, nt, prio=prio)
        order = [P.reqs[i].name for i in sorted(range(P.nr), key=lambda i: -prio[i])]

        def build(S):
            sch = P.make()
            return P.read({}, ctx.meth(sch, 'generate', 0, 0.9, 0.5))

        def rel(v, G, p):
            if '!raise' in G:
                return None
            return P.safe(v, G, lambda i: simulate(P.reqs, v, i, 99, order, rise_order(P.reqs, v, i)))
        ctx.case('initial plan, windows %s, %d samples' % (nw, nt), build, lambda v: {'kind': 'WindowCollection'}, rel=rel, S=S, n=250, where=FS, budget=300)
    # after iterations of the search
    for name, windows, its in (('one iteration', [(0.0, 8.0), (3.0, 9.0)], 1), ('one iteration, separate windows', [(0.0, 8.0), (10.0, 18.0)], 1)) + ((('two iterations', [(0.0, 8.0), (3.0, 9.0)], 2),) if ctx.deep else ()):
        S = Syms()
        P = Plan(ctx, k, S, (1, 1), 1, prio=(2, 9), windows=list(windows))

        def build(S):
            sch = P.make()
            return P.read({}, ctx.meth(sch, 'generate', its, S.f('p', 0.3, 1), S.f('l', 0, 1)))

        def rel(v, G, p):
            if '!raise' in G:
                return None
            r = P.safe(v, G)
            N = v['_n']
            c = int(np.atleast_1d(G['count'])[0])
            worth = sum(np.array([P.reqs[int(x)].priority for x in np.broadcast_to(np.asarray(G['request %d' % q]), (N,))], float) for q in range(c)) if c else np.zeros(N)
            r['no worse than the initial plan'] = np.ones(N, bool)
            for i in range(N):
                st, margin = simulate(P.reqs, v, i, 99, ['B', 'A'], None)
                if margin > 1e-7:
                    r['no worse than the initial plan'][i] = np.broadcast_to(worth, (N,))[i] >= sum(q.priority for q in P.reqs if q.name in st)
            return r
        ctx.case('plan after %s' % name, build, lambda v: {'kind': 'WindowCollection'}, rel=rel, S=S, n=250, where=FS, budget=400)
    # planning again: unchanged, with a request added in between, and after a search
    for name, first, second, added, wins in (('again', 0, 0, False, [(0.0, 8.0), (10.0, 18.0)]), ('again, after a search', 1, 0, False, [(0.0, 8.0), (10.0, 18.0)]), ('with a request added', 0, 0, True, None),
                                             ('with a request added, overlapping', 0, 0, True, [(0.0, 8.0), (3.0, 9.0)])):
        S = Syms()
        P = Plan(ctx, k, S, (1, 1), 1, prio=(2, 9), windows=wins)

        def build(S, first=first, second=second, added=added, P=P):
            sch = P.make(hold=1 if added else 0)
            gen = lambda its: ctx.meth(sch, 'generate', its, 0.9, 0.5)
            one = gen(first)
            before = P.read({}, one)
            if added:
                P.add(sch, 1)
            out = P.read({}, gen(second))
            out['first plan kept'] = all(x is y or x == y for q in (P.read({}, one),) for x, y in zip(q.values(), before.values())) and len(P.read({}, one)) == len(before)
            return out

        def rel(v, G, p, P=P, added=added):
            if '!raise' in G:
                return None
            r = P.safe(v, G)
            r['a plan already returned is not changed'] = np.asarray(G['first plan kept'], bool)
            # requests planned before keep their place, or all are planned anew
            r['the initial plan of all requests'] = np.any([P.safe(v, G, lambda i: simulate(P.reqs, v, i, 99, o, rise_order(P.reqs, v, i)))['expected schedule'] for o in (['B', 'A'], ['A', 'B'])[:1 + added]], axis=0)
            return r
        ctx.case('plan ' + name, build, lambda v: {'kind': 'WindowCollection'}, rel=rel, S=S, n=150, where=FS, budget=300)
    # a request that names a look angle, next to one that does not
    S = Syms()
    P = Plan(ctx, k, S, (1, 1), 3, prio=(9, 2), windows=[None, (0.0, 12.0)], look=S.f('look', -60, 60))

    def build(S):
        return P.read({}, ctx.meth(P.make(), 'generate', 0, 0.9, 0.5))

    def rel(v, G, p):
        if '!raise' in G:
            return None
        r = P.safe(v, G)
        N = v['_n']
        c = int(np.atleast_1d(G['count'])[0])
        r['start at the crossing of the requested look angle'] = ok = np.ones(N, bool)
        for i in range(N):
            d = [float(v['P%d' % z][i]) - float(v['look'][i]) for z in range(3)]
            ts = [float(v['t%d' % z][i]) for z in range(3)]
            for q in range(c):
                if int(np.broadcast_to(np.asarray(G['request %d' % q]), (N,))[i]) == 0:
                    s = float(np.broadcast_to(np.asarray(G['start %d' % q]), (N,))[i])
                    ok[i] = any(abs(s - ts[z]) < 1e-9 and d[z] * d[z + 1] <= 1e-9 for z in (0, 1))
        return r
    ctx.case('plan with a look angle', build, lambda v: {'kind': 'WindowCollection'}, rel=rel, S=S, n=250, where=FS, budget=300)
    S = Syms()

    def build(S):
        P = Plan(ctx, k, Syms(), (), 0)
        ctx.meth(P.make(), 'generate', 1, 0.9, 0.5)
        return {}
    ctx.case('no requests', build, lambda v: {'!raise': True}, S=S, n=3, where=FS)
    return ctx.finish('other', RULE, 4)


@guarded
def k09(ctx):
    """What a request of the scheduler records."""
    from .encounter import sky, satellite, site, ephemeris, GEN
    k = K(ctx)
    I = ctx.I
    SC = ctx.name('celest.schedule.scheduler.Scheduler')
    IX = ctx.name(RH + 'RequestIndices')
    for lighting, n in ((None, 2), ('DAYTIME', 2), ('NIGHTTIME', 2), ('ANYTIME', 3)):
        for look in (False, True):
            if look and lighting in ('DAYTIME', 'NIGHTTIME'):
                continue
            S = Syms()
            j = sky(S, n, True)
            dl, du, la = S.f('dl', 2450000, 2460000), S.f('du', 1, 900), S.f('look', -30, 30, special=[0.0])
            pr, qu = S.i('pr', 1, 10), S.i('qu', 1, 10)

            def build(S):
                ephemeris(ctx, S, n)
                p, sat = satellite(ctx, k, S, j, n)
                loc = site(ctx, k, S)
                L = ctx.name(GEN + 'Lighting')
                sch = ctx.call(SC, sat, 10)
                kw = {} if lighting is None else {'lighting': ctx.get(L, lighting)}
                if look:
                    kw['look_ang'] = la
                ctx.meth(sch, 'add_request', loc, dl, du, pr, qu, **kw)
                h = ctx.get(sch, 'request_handler')
                out = {'n': I.libs.len_(I, h), 'scheduled': ctx.get(h, 'number_of_scheduled_requests')}
                r = I.getitem(h, 0)
                f = lambda x: I.getitem(r, ctx.get(IX, x))
                out['location'] = f('location') == loc
                out['deadline'] = ctx.vals(k.to(f('deadline'), 'jd2000'))[1][0]
                out['duration'] = ctx.vals(k.to(f('duration'), 's'))[1][0]
                out['priority'], out['quality'] = f('priority'), f('quality')
                out['look'] = None if f('look_angle') is None else ctx.vals(k.to(f('look_angle'), 'deg'))[1][0]
                out['is scheduled'] = f('is_scheduled')
                a = list(I.libs.iterate(I, f('vtw_list')))
                b = list(I.libs.iterate(I, ctx.call(ctx.name(GEN + 'generate_vtws'), sat, loc, 10, ctx.get(L, lighting or 'DAYTIME'))))
                out['windows'] = len(a) == len(b) and all(ctx.vals(k.to(ctx.get(x, m), 'jd2000'))[1][0] is ctx.vals(k.to(ctx.get(y, m), 'jd2000'))[1][0] for x, y in zip(a, b) for m in ('rise_time', 'set_time'))
                return out
            ctx.case('%s lighting%s' % (lighting or 'default', ', look angle' if look else ''), build,
                     lambda v: {'n': 1, 'scheduled': 0, 'location': True, 'deadline': v['dl'], 'duration': v['du'], 'priority': v['pr'], 'quality': v['qu'], 'look': v['look'] if look else None, 'is scheduled': False, 'windows': True},
                     S=S, n=60, where=FS)
    ctx.I.hooks.pop('spk.compute', None)
    S = Syms()
    j = sky(S, 1)

    def bad(sat, thr):
        def build(S):
            p, s = satellite(ctx, k, S, j, 1)
            ctx.call(SC, s if sat else p, thr)
            return {}
        return build
    ctx.case('satellite of another type', bad(False, 10), lambda v: {'!raise': True, '!exc': ['TypeError']}, S=S, n=3, where=FS)
    ctx.case('threshold of another type', bad(True, '10'), lambda v: {'!raise': True, '!exc': ['TypeError']}, S=S, n=3, where=FS)
    ctx.case('integer threshold', bad(True, 10), lambda v: {}, S=S, n=3, where=FS)
    ctx.case('real threshold', bad(True, 10.5), lambda v: {}, S=S, n=3, where=FS)
    return ctx.finish('other', RULE, 5)


@guarded
def k10(ctx):
    """Cost, completeness and the initial solution."""
    k = K(ctx)
    for nr in (0, 1, 2, 3):
        for mask in itertools.product((0, 1), repeat=nr):
            S = Syms()
            ps = [S.i('p%d' % i, 0, 20) for i in range(nr)]
            rs = [Req('ABC'[i], [(0.0, 9.0)], priority=ps[i], sch=(0, 1.0) if mask[i] else None) for i in range(nr)]

            def build(S):
                h = H(ctx, k, rs)
                out = {'cost': ctx.call(ctx.name(UT + 'cost'), h.h), 'complete': ctx.call(ctx.name(UT + 'is_complete'), h.h)}
                return h.read(out)

            def ref(v):
                e = {'cost': -sum(v['p%d' % i] for i in range(nr) if mask[i]) if any(mask) else 0, 'complete': all(mask), 'order': ' '.join('ABC'[:nr])}
                e.update({'scheduled ' + 'ABC'[i]: bool(mask[i]) for i in range(nr)})
                return e
            ctx.case('scheduled %s' % (''.join(map(str, mask)) or 'none of none'), build, ref, S=S, n=20, where=FU)
    for name, n, S in crowds(ctx):
        rs = crowd(n, n + 3)
        for r in rs[::4]:
            r.priority = 0

        def build(S, rs=rs):
            h = H(ctx, k, rs)
            return h.read({'cost': ctx.call(ctx.name(UT + 'cost'), h.h), 'complete': ctx.call(ctx.name(UT + 'is_complete'), h.h)})
        ctx.case('cost of %s' % name, build, lambda v, rs=rs: {'cost': -sum(r.priority for r in rs if r.sch), 'complete': all(r.sch for r in rs), 'order': ' '.join(r.name for r in rs)}, S=S, n=3, where=FU)
        rs = crowd(n, n + 4)
        for r in rs:
            r.sch = None
        order = [r.name for r in sorted(rs, key=lambda r: -r.priority)]

        def build(S, rs=rs):
            h = H(ctx, k, rs)
            ctx.call(ctx.name(UT + 'initialize_solution'), h.h)
            return h.read({})

        def rel(v, G, p, rs=rs, order=order):
            return None if '!raise' in G else agree(rs, v, G, lambda i: simulate(rs, v, i, 999, order, rise_order(rs, v, i)))
        ctx.case('initial solution of %s' % name, build, lambda v: {}, rel=rel, S=S, n=3, where=FU)
    # the initial solution inserts requests by priority, each into its earliest feasible window
    for name, nw, prio in (('two windows', (2,), (3,)), ('two requests', (1, 1), (3, 8)), ('two requests, reversed', (1, 1), (8, 3))) + ((('three requests', (1, 1, 1), (3, 8, 5)),) if ctx.deep else ()):
        S = Syms()
        w = wsym(S, [str(i) for i in range(sum(nw))])
        rs, q = [], 0
        for i, c in enumerate(nw):
            rs.append(Req('ABC'[i], w[q:q + c], S.f('dl%d' % i, 0, 14), S.f('d%d' % i, 0.25, 2), 'dy', prio[i], S.i('q%d' % i, -12, 11)))
            q += c
        order = [rs[i].name for i in sorted(range(len(rs)), key=lambda i: -prio[i])]

        def build(S):
            h = H(ctx, k, rs)
            ctx.call(ctx.name(UT + 'initialize_solution'), h.h)
            return h.read({})

        def rel(v, G, p):
            if '!raise' in G:
                return None
            return agree(rs, v, G, lambda i: simulate(rs, v, i, 99, order, rise_order(rs, v, i)))
        ctx.case('initial solution, %s' % name, build, lambda v: {}, rel=rel, S=S, n=250, where=FU)
    return ctx.finish('other', RULE, 10)
