"""Deciding layer: value-graph summaries against reference summaries.

A case names one obligation group.  `build` is interpreted abstractly (every
trace of the repository code it reaches becomes a guarded summary); `ref` gives
the value each output must have as a function of the inputs.  Two value graphs
are decided equal by random interpretation: both are evaluated under many
valuations of the input symbols, including valuations placed on and around the
zeros of every comparison that occurs in the summaries, so that every branch of
a summary is witnessed.
"""
import json
import os
import re
import sys
import time
import traceback
import numpy as np
from . import terms as T
from .terms import Term
from .values import *
from .interp import Interp, RaiseEx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


class Skip(Exception):
    pass


class Sym:
    def __init__(self, name, sort, lo, hi, special, grid, choices):
        self.name, self.sort, self.lo, self.hi = name, sort, lo, hi
        self.special, self.grid, self.choices = special, grid, choices
        self.term = T.sym(name, sort)

    def sample(self, rng, n):
        if self.choices is not None:
            idx = rng.integers(0, len(self.choices), n)
            out = np.empty(n, dtype=object)
            for i, k in enumerate(idx):
                out[i] = self.choices[k]
            return out if isinstance(self.choices[0], str) else out.astype(bool if self.sort == 'b' else float)
        if self.sort == 'b':
            return rng.integers(0, 2, n).astype(bool)
        if self.sort == 'i':
            x = rng.integers(self.lo, self.hi + 1, n).astype(float)
        else:
            x = rng.uniform(self.lo, self.hi, n)
        if self.grid:
            x = np.round(x / self.grid) * self.grid
        if self.special is not None and len(self.special):
            m = rng.random(n) < min(0.5, 0.06 * len(self.special))
            sp = np.asarray(self.special, dtype=float)[rng.integers(0, len(self.special), n)]
            x = np.where(m, sp, x)
        return x


class Named(dict):
    """Symbols by name; in a wide batch the entries beyond the first few repeat them."""

    def __missing__(self, name):
        m = repeats(name)
        if m is None or m not in self:
            raise KeyError(name)
        return self[m]


FEW = 6
# outputs that are Julian dates are compared to a fraction of a millisecond, whatever the tolerance of the case
DATED = re.compile(r'(result )?v?(time|rise|set|start|deadline)(?![a-z])')
DAY_TOL = 5e-9


def repeats(name):
    """The symbol an entry of a wide batch repeats (in an order without a period)."""
    m = re.fullmatch(r'(.*?)(\d+)', name)
    if not m or int(m.group(2)) < FEW:
        return None
    i = int(m.group(2))
    return '%s%d' % (m.group(1), ((i * 2654435761 + 12345) >> 9) % FEW)


class Syms:
    """Input symbols of a case, with their domains."""

    def __init__(self, entries=0):
        self.d = Named()
        self.post = None
        self.wide = {} if entries > FEW else None

    def _add(self, name, sort, lo=0, hi=1, special=None, grid=None, choices=None):
        if self.wide is not None and repeats(name) is not None:
            m = self.wide[name] = repeats(name)
            return self._add(m, sort, lo, hi, special, grid, choices)
        if name not in self.d:
            self.d[name] = Sym(name, sort, lo, hi, special, grid, choices)
        return self.d[name].term

    def f(self, name, lo=-10.0, hi=10.0, special=None, grid=None):
        return self._add(name, 'f', lo, hi, special, grid)

    def i(self, name, lo=0, hi=10, special=None):
        return self._add(name, 'i', lo, hi, special)

    def b(self, name):
        return self._add(name, 'b')

    def s(self, name, choices):
        return self._add(name, 's', choices=list(choices))

    def one_of(self, name, choices, sort='f'):
        return self._add(name, sort, choices=list(choices))

    def sample(self, rng, n):
        v = {k: s.sample(rng, n) for k, s in self.d.items()}
        if self.post:
            v = self.post(self.widen(v))
        return v

    def widen(self, v):
        for k, m in (self.wide or {}).items():
            v[k] = v[m]
        return v


class V(dict):
    def __getattr__(self, k):
        return self[k]


def mkenv(S, vals, n, ufs, extra_rng):
    env = T.Env([], {}, n)
    for k, s in S.d.items():
        env.bind(s.term, np.asarray(vals[k]))
    for k in vals:
        if k not in S.d and k.startswith('random'):
            env.bind(T.sym(k, 'f'), np.asarray(vals[k]))
    env.ufs = dict(ufs or {})
    env.rng = extra_rng
    return env


class AutoEnv:
    pass


def bind_free(terms, env, n):
    """Bind the symbols the analysis itself introduced."""
    for t in T.walk(tuple(x for x in terms if isinstance(x, Term))):
        if t.op == 'sym' and t.id not in env.syms:
            nm = t.args[0]
            rng = np.random.default_rng(abs(hash(nm)) % (2 ** 32) if False else sum(map(ord, nm)) * 7919 + n)
            if nm.startswith('random'):
                env.bind(t, rng.random(n))
            elif nm.startswith('uninitialised'):
                env.bind(t, rng.uniform(1e7, 1e9, n))
            elif nm.startswith('loop:'):
                continue
            else:
                raise Unsupported('free symbol %s' % nm)


def ev(x, env):
    if x is None or isinstance(x, (str, bytes)) and not isinstance(x, Term):
        o = np.empty(env.nval, dtype=object)
        o[:] = [x] * env.nval
        return o
    if isinstance(x, (bool, int, float)):
        return np.full(env.nval, x)
    if isinstance(x, Term):
        r = T.evaluate(x, env)
        return np.broadcast_to(r.reshape(-1) if r.size == 1 else r, (env.nval,)).reshape(env.nval)
    o = np.empty(env.nval, dtype=object)
    for i in range(env.nval):
        o[i] = x
    return o


def same(x, y, rtol, atol):
    """Element-wise agreement of found x and expected y."""
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype == object or y.dtype == object:
        xo, yo = np.broadcast_arrays(x.astype(object), y.astype(object))
        return np.array([_same1(a, b, rtol, atol) for a, b in zip(xo, yo)], dtype=bool)
    if x.dtype.kind == 'b' and y.dtype.kind == 'b':
        return x == y
    xf, yf = x.astype(float), y.astype(float)
    with np.errstate(all='ignore'):
        ok = np.abs(xf - yf) <= atol + rtol * np.abs(yf)
    ok |= (xf == yf)
    ok |= np.isnan(xf) & np.isnan(yf)
    return np.broadcast_to(ok, (max(x.size, y.size),))


def _same1(a, b, rtol, atol):
    if isinstance(a, (float, np.floating, int, np.integer)) and isinstance(b, (float, np.floating, int, np.integer)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        if a != a and b != b:
            return True
        return a == b or abs(float(a) - float(b)) <= atol + rtol * abs(float(b))
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    return a == b


class Ctx:
    def __init__(self, pid, tier='quick', seed=1, root='/repo'):
        self.pid, self.tier, self.seed, self.root = pid, tier, seed, root
        self.I = Interp(root)
        self.viol = []
        self.known_hits = []
        self.undecided = []
        self.cases = []
        self.obl = 0
        self.samples = 0
        self.paths = 0
        self.atoms = 0
        self.branches = 0
        self.t0 = time.time()
        self.known = load_known(pid)
        self.rules = []
        self.sites = set()
        self.deep = tier == 'thorough'
        self.share = None
        self._sizes = None
        self.limit = 7200 if self.deep else 640
        self.preload()

    def preload(self):
        """Load every module of the package; one that does not load is left for the case that needs it."""
        base = os.path.join(self.root, 'celest')
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                I = self.I
                heap, mods, nid = dict(I.heap), dict(I.modules), I.nid
                try:
                    I.load(rel)
                except (Unsupported, RaiseEx, SyntaxError, RecursionError, KeyError):
                    I.heap, I.modules = heap, mods

    # ------------------------------------------------------------ helpers used by specs
    def wide(self, *parts, least=33, most=4000):
        """A size for a wide batch, and sizes beyond those the source distinguishes, if it distinguishes any."""
        from .sizes import sizes
        if self._sizes is None:
            self._sizes = sizes(self.root)
        ok = sorted({c + 1 for c, f, _ in self._sizes if FEW <= c + 1 <= most and any(q in f for q in parts or ('celest/',)) and (parts or 'schedule/' not in f)})
        return [least] * bool(least) + [n for n in ok if n > FEW][:4]

    def name(self, dotted):
        return self.I.getname(dotted)

    def get(self, o, a):
        return self.I.getattr_(o, a)

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def meth(self, o, m, *a, **k):
        return self.I.call(self.I.getattr_(o, m), list(a), k)

    def arr(self, xs, dtype='f'):
        """1-d (or nested) array of given scalars."""
        a = np.empty(np.shape(xs), dtype=object)
        f = a.reshape(-1)
        flat = list(_flatten(xs))
        for i, x in enumerate(flat):
            f[i] = self.I.np.cast(x, dtype) if dtype in 'fib' else x
        return self.I.newarr(f, a.shape, dtype, True)

    def lst(self, xs):
        return self.I.newlist(list(xs))

    def vals(self, v):
        """(shape, flat elements) of an array or scalar."""
        if isinstance(v, Arr):
            return v.shape, self.I.np.elems(self.I, v)
        if isinstance(v, Ref) and isinstance(self.I.cell(v), ListCell) or isinstance(v, tuple):
            a, d = self.I.np.tonp(self.I, v)
            return a.shape, list(a.reshape(-1))
        return (), [v]

    def str(self, v):
        return self.I.libs.str_(self.I, v)

    def cls(self, v):
        """Name of the class of a value."""
        return self.I.cell(v).cls.name if self.I.is_obj(v) else self.I.libs.tname(self.I, v)

    def op(self, name, a, b):
        return self.I.binop(name, a, b)

    def cmp(self, name, a, b):
        return self.I.compare(name, a, b)

    def buf(self, v):
        return v.buf if isinstance(v, Arr) else v.id if isinstance(v, Ref) else None

    def put(self, out, label, v):
        sh, xs = self.vals(v)
        out[label + '.shape'] = str(sh)
        for i, x in enumerate(xs):
            out['%s[%d]' % (label, i) if sh else label] = x

    def expect(self, out, label, a):
        """Expected array: a of shape (nval, *shape)"""
        a = np.asarray(a)
        sh = a.shape[1:]
        out[label + '.shape'] = str(sh)
        f = a.reshape(a.shape[0], -1)
        for i in range(f.shape[1]):
            out['%s[%d]' % (label, i) if sh else label] = f[:, i]

    # ------------------------------------------------------------ a case
    def case(self, name, build, ref=None, rel=None, S=None, n=240, rtol=1e-9, atol=1e-9, edges='ignore', ufs=None,
             agg=None, maxpaths=3000, where=None, budget=240, seeds=True, divs=False):
        self.divs = divs
        if S is not None and S.wide is not None:
            n, seeds = min(n, 12), False
        if self.share is not None and not self.share.claim():
            return
        t0 = time.time()
        left = self.limit - (t0 - self.t0)
        if left < 5:
            self.undecided.append((name, 'time budget of the check exhausted'))
            return
        budget = min(budget, left)
        try:
            self._case(name, build, ref, rel, S, n, rtol, atol, edges, ufs, agg, maxpaths, where, budget, seeds)
            self.cases.append({'case': name, 'wall_s': round(time.time() - t0, 2)})
        except Unsupported as e:
            self.undecided.append((name, str(e)))
        except T.EvalError as e:
            self.undecided.append((name, 'evaluation: %s' % e))
        except RecursionError:
            self.undecided.append((name, 'recursion limit of the analysis'))
        except RaiseEx as e:
            # raised while loading modules or building inputs outside a trace
            self.violation(name, 'load', 'raises %s at %s' % (self.I.exc_name(e.value) if e.value.id in self.I.heap else 'an exception', e.site), where=where)
        except Skip as e:
            self.undecided.append((name, str(e)))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.undecided.append((name, 'internal: %s: %s at %s' % (type(e).__name__, e, self.I.site)))

    def _case(self, name, build, ref, rel, S, n, rtol, atol, edges, ufs, agg, maxpaths, where, budget, seeds):
        S = S or Syms()
        I = self.I
        I.deadline = time.time() + budget

        def thunk():
            r = build(S)
            return r if r is not None else {}
        paths = I.explore(thunk, maxpaths)
        outs = []
        for p in paths:
            if p.kind in ('return', 'ret'):
                outs.append(('return', p.value, p))
            elif p.kind == 'raise':
                c = p.heap[p.value.id]
                outs.append(('raise', c.cls.name, p, [getattr(m, 'name', '') for m in c.cls.mro]))
            elif p.kind == 'diverge':
                outs.append(('diverge', None, p))
            else:
                raise Unsupported('path kind ' + p.kind)
        self.paths += len(paths)
        self.branches += sum(len(p.guards) for p in paths)
        terms = []
        for o in outs:
            if self.divs:
                terms += [e[1] for e in o[2].events if e[0] == 'div' and isinstance(e[1], Term)]
            terms += [g for g in o[2].guards]
            if o[0] == 'return':
                terms += [x for x in o[1].values() if isinstance(x, Term)]
        rng = np.random.default_rng(self.seed * 1000003 + sum(map(ord, self.pid + name)))
        if self.deep:
            n = n * 4
        # random draws are inputs of the case like any other
        draws = {t.args[0]: t for t in T.walk(tuple(terms)) if t.op == 'sym' and t.args[0].startswith('random') and T.sort_of(t) == 'f' and t.args[0] not in S.d}
        if draws:
            S, given = Syms(), S
            S.d, S.post = dict(given.d), given.post
            for nm, t in draws.items():
                S.d[nm] = Sym(nm, 'f', 0.0, 1.0, None, None, None)
                S.d[nm].term = t
        vals = S.sample(rng, n)
        if seeds and S.d:
            vals = self._seeds(S, vals, terms, rng, ufs, n)
        nv = len(next(iter(vals.values()))) if vals else 1
        bad = self._compare(S, vals, nv, outs, terms, ref, rel, rtol, atol, ufs, edges, rng)
        if agg is not None:
            for label, msg in agg(outs) or []:
                bad.append((label, msg, None))
        labels = set()
        for o in outs:
            if o[0] == 'return':
                labels |= set(o[1])
        self.obl += max(1, len(labels))
        self.samples += nv
        for label, msg, p in bad:
            self.violation(name, label, msg, where, p)

    def _env(self, S, vals, nv, ufs, terms):
        env = mkenv(S, vals, nv, ufs, None)
        bind_free(terms, env, nv)
        return env

    def _mismatch(self, S, vals, nv, outs, terms, ref, rel, rtol, atol, ufs):
        """list of (label, mask, found, expected, path)"""
        env = self._env(S, vals, nv, ufs, terms)
        v = V(S.widen(vals))
        v['_n'] = nv
        with np.errstate(all='ignore'):
            exp = ref(v) if ref else {}
        exp = dict(exp)
        must = exp.pop('!raise', None)
        excs = exp.pop('!exc', None)
        skip = exp.pop('!skip', None)
        must = np.zeros(nv, bool) if must is None else np.broadcast_to(np.asarray(must, bool), (nv,))
        maybe = exp.pop('!mayraise', None)
        maybe = np.zeros(nv, bool) if maybe is None else np.broadcast_to(np.asarray(maybe, bool), (nv,))
        skip = np.zeros(nv, bool) if skip is None else np.broadcast_to(np.asarray(skip, bool), (nv,))
        res = []
        covered = np.zeros(nv, bool)
        if self.divs:
            done = set()
            for o in outs:
                for e in o[2].events:
                    if e[0] == 'div' and isinstance(e[1], Term) and (e[1].id, len(e[2])) not in done:
                        m = np.asarray(ev(e[1], env)).astype(float) == 0
                        for g in e[2]:
                            if not m.any():
                                break
                            m = m & np.asarray(ev(g, env)).astype(bool)
                        if (m & ~(must | maybe)).any():
                            done.add((e[1].id, len(e[2])))
                            res.append(('division', m & ~(must | maybe), 'division by zero at %s' % e[3], 'a result', o[2]))
        for o in outs:
            p = o[2]
            m = np.ones(nv, bool)
            for g in p.guards:
                m = m & np.asarray(ev(g, env)).astype(bool)
                if not m.any():
                    break
            if not m.any():
                continue
            covered |= m
            m = m & ~skip
            if not m.any():
                continue
            if o[0] == 'diverge':
                res.append(('termination', m, 'does not terminate', 'a result', p))
                continue
            if o[0] == 'raise':
                okexc = excs is None or any(x in excs for x in o[3])
                bad = m & ~(must | maybe) if okexc else m
                if rel is not None:
                    rr = rel(v, {'!raise': o[1], '!mro': o[3]}, p)
                    if rr is not None:
                        bad = m & ~(must | maybe) & ~np.broadcast_to(np.asarray(rr, bool), (nv,))
                if bad.any():
                    res.append(('exception', bad, o[1], 'no %s' % o[1] if okexc else 'one of %s' % sorted(excs), p))
                continue
            mm = m & must
            if mm.any():
                res.append(('exception', mm, 'no exception', 'an exception' if excs is None else 'one of %s' % sorted(excs), p))
            m = m & ~must
            if not m.any():
                continue
            got = o[1]
            for lab, e in exp.items():
                rt, at = rtol, atol
                ang = None
                if isinstance(e, tuple) and len(e) == 2 and e[0] == 'mod':
                    ang, e = e[1]
                if isinstance(e, tuple) and len(e) == 3 and e[0] == 'tol':
                    at, e = e[1], e[2]
                elif DATED.match(lab) and (rt or at > DAY_TOL):
                    rt, at = 0.0, DAY_TOL
                if lab not in got:
                    if lab.endswith('?'):
                        continue
                    res.append((lab, m, 'no such output', 'an output', p))
                    continue
                x = ev(got[lab], env)
                if e is None or isinstance(e, (str, tuple)):
                    ee = np.empty(nv, dtype=object)
                    for q in range(nv):
                        ee[q] = e
                else:
                    ee = np.broadcast_to(np.asarray(e), (nv,))
                if ang:
                    d = np.mod(np.asarray(x, float) - np.asarray(ee, float) + ang / 2, ang) - ang / 2
                    ok = np.abs(d) <= at
                else:
                    ok = same(x, ee, rt, at)
                bad = m & ~ok
                if bad.any():
                    res.append((lab, bad, x, ee, p))
            if rel is not None:
                G = {k: ev(x, env) for k, x in got.items()}
                r = rel(v, G, p)
                if isinstance(r, dict):
                    for lab, ok in r.items():
                        bad = m & ~np.broadcast_to(np.asarray(ok, bool), (nv,))
                        if bad.any():
                            res.append((lab, bad, 'relation violated', 'relation', p))
                elif r is not None:
                    bad = m & ~np.broadcast_to(np.asarray(r, bool), (nv,))
                    if bad.any():
                        res.append(('relation', bad, 'relation violated', 'relation', p))
        if nv and covered.mean() < 0.5 and not all(skip | covered):
            raise Unsupported('summaries cover only %d%% of the valuations' % (100 * covered.mean()))
        return res, covered

    def _compare(self, S, vals, nv, outs, terms, ref, rel, rtol, atol, ufs, edges, rng):
        res, cov = self._mismatch(S, vals, nv, outs, terms, ref, rel, rtol, atol, ufs)
        bad = []
        seen = set()
        for lab, mask, x, e, p in res:
            if lab in seen:
                continue
            idx = np.flatnonzero(mask)
            ok_idx = None
            if edges == 'ignore' and S.d and ref is not None and lab != 'division':
                ok_idx = self._persist(S, vals, idx[:40], outs, terms, ref, rel, rtol, atol, ufs, rng, lab)
            else:
                ok_idx = idx[0] if len(idx) else None
            if ok_idx is None:
                continue
            i = ok_idx
            seen.add(lab)
            show = lambda q: repr(q) if isinstance(q, str) and not isinstance(q, np.ndarray) else _short(q[i])
            ins = {k: _short(vv[i]) for k, vv in vals.items()}
            bad.append((lab, 'found %s, expected %s for %s' % (show(x), show(e), ins), p))
        return bad

    def _persist(self, S, vals, idx, outs, terms, ref, rel, rtol, atol, ufs, rng, lab):
        """First index whose mismatch also occurs in a neighbourhood."""
        if not len(idx):
            return None
        K = 5
        sub = {}
        for k, x in vals.items():
            s = S.d[k]
            r = np.repeat(np.asarray(x)[idx], K)
            if s.sort == 'f' and s.choices is None and not s.grid:
                h = 1e-9 * max(abs(s.hi - s.lo), 1e-12)
                r = r + rng.uniform(-h, h, r.size)
                r[::K] = np.asarray(x)[idx]
            sub[k] = r
        if S.post:
            sub = S.post(sub)
        nv = len(idx) * K
        res, _ = self._mismatch(S, sub, nv, outs, terms, ref, rel, rtol, atol, ufs)
        m = np.zeros(nv, bool)
        for l2, mask, x, e, p in res:
            if l2 == lab:
                m |= mask
        m = m.reshape(len(idx), K)
        for i, row in zip(idx, m):
            if row[0] and row[1:].any():
                return i
        return None

    def _seeds(self, S, vals, terms, rng, ufs, n):
        """Valuations on and around the zeros of the comparisons in the summaries."""
        atoms = []
        for t in T.walk(tuple(terms)):
            if t.op == 'lt' or t.op == 'eq' and T.sort_of(t.args[0]) in 'fi' and T.sort_of(t.args[1]) in 'fi':
                atoms.append(t)
            elif t.op in ('floor', 'mod', 'trunc', 'ceil', 'abs', 'max', 'min', 'sign') and len(atoms) < 4000:
                pass
        self.atoms += len(atoms)
        fl = [k for k, s in S.d.items() if s.sort in 'f' and s.choices is None]
        if not fl or not atoms:
            return vals
        atoms = atoms[:160]
        extra = []
        m = 12
        for t in atoms:
            d = T.sub(t.args[0], t.args[1])
            if not isinstance(d, Term):
                continue

            def g(v, nn):
                env = self._env(S, v, nn, ufs, [d])
                return np.asarray(ev(d, env)).astype(float)
            try:
                base = {k: np.asarray(x)[rng.integers(0, n, 60)] for k, x in vals.items()}
                other = {k: np.asarray(x)[rng.integers(0, n, 60)] for k, x in vals.items()}
                for k in vals:
                    if k not in fl:
                        other[k] = base[k]
                ga, gb = g(base, 60), g(other, 60)
                ok = np.isfinite(ga) & np.isfinite(gb) & (np.sign(ga) != np.sign(gb))
                ii = np.flatnonzero(ok)[:m]
                if not len(ii):
                    continue
                lo = {k: base[k][ii].copy() for k in base}
                hi = {k: other[k][ii].copy() for k in other}
                sa = np.sign(ga[ii])
                for _ in range(70):
                    mid = {k: (0.5 * (lo[k].astype(float) + hi[k].astype(float)) if k in fl else lo[k]) for k in lo}
                    if S.post:
                        mid = S.post(dict(mid))
                    gm = np.sign(g(mid, len(ii)))
                    left = gm == sa
                    for k in fl:
                        lo[k] = np.where(left, mid[k], lo[k])
                        hi[k] = np.where(left, hi[k], mid[k])
                for q in (lo, hi):
                    for k in fl:
                        if S.d[k].grid:
                            q[k] = np.round(q[k].astype(float) / S.d[k].grid) * S.d[k].grid
                    extra.append(q)
                # near but off the zero
                for eps in (1e-7, 1e-4, 1e-2):
                    q = {k: (lo[k] + rng.uniform(-eps, eps, len(ii)) * (S.d[k].hi - S.d[k].lo) if k in fl else lo[k]) for k in lo}
                    for k in fl:
                        if S.d[k].grid:
                            q[k] = np.round(q[k].astype(float) / S.d[k].grid) * S.d[k].grid
                    extra.append(q)
            except (T.EvalError, Unsupported):
                continue
        if not extra:
            return vals
        out = {}
        for k in vals:
            out[k] = np.concatenate([np.asarray(vals[k])] + [np.asarray(q[k]) for q in extra])
        if S.post:
            out = S.post(out)
        # keep inside the domain
        keep = np.ones(len(next(iter(out.values()))), bool)
        for k in fl:
            s = S.d[k]
            lo = min([s.lo] + list(s.special if s.special is not None else []))
            hi = max([s.hi] + list(s.special if s.special is not None else []))
            keep &= (out[k].astype(float) >= lo) & (out[k].astype(float) <= hi)
        keep[:n] = True
        return {k: x[keep] for k, x in out.items()}

    # ------------------------------------------------------------ results
    def violation(self, case, label, msg, where=None, path=None):
        key = '%s/%s' % (case, label)
        for kf in self.known:
            if kf['case'] == case and kf['label'] in ('*', label) and kf.get('contains', '') in msg:
                self.known_hits.append((kf, key))
                return
        self.viol.append({
            'case': case, 'label': label, 'message': msg, 'where': where,
            'site': repr(path.site) if path is not None else None,
            'path': [T.show(g)[:300] for g in path.guards][:20] if path is not None else None})

    def fact(self, case, label, ok, msg, where=None):
        """A structural obligation decided directly."""
        if self.share is None or self.share.first:
            self.obl += 1
        if not ok:
            self.violation(case, label, msg, where)

    def undecide(self, case, why):
        self.undecided.append((case, why))

    FIELDS = ('viol', 'known_hits', 'undecided', 'cases')
    COUNTS = ('obl', 'samples', 'paths', 'atoms', 'branches')
    SEEN = ('funcs_seen', 'files_seen', 'loops_seen')

    def finish(self, level, rule, floor=1, assumptions=None):
        I = self.I
        if self.share is not None:
            d = {f: getattr(self, f) for f in self.FIELDS + self.COUNTS}
            d.update({f: set(getattr(I, f)) for f in self.SEEN})
            d['calls_seen'] = I.calls_seen
            d['args'] = (level, rule, floor, assumptions)
            self.share.send(d)
        return self.report(level, rule, floor, assumptions)

    def parallel(self, fn, n=8):
        """Run the cases of a property in n processes; every process walks through all cases and decides those it claims first."""
        share = Share(n)
        got = share.run(self, fn)
        if got is None:
            return fn(self)
        for d in got:
            for f in self.FIELDS:
                mine = getattr(self, f)
                keys = set(map(_key, mine))
                for x in d[f]:
                    if _key(x) not in keys:
                        keys.add(_key(x))
                        mine.append(x)
            for f in self.COUNTS:
                setattr(self, f, getattr(self, f) + d[f])
            for f in self.SEEN:
                getattr(self.I, f).update(d[f])
            self.I.calls_seen += d['calls_seen']
        self.cases.sort(key=lambda c: c['case'])
        return self.report(*got[0]['args'])

    def report(self, level, rule, floor=1, assumptions=None):
        I = self.I
        os.makedirs(EVID, exist_ok=True)
        decided = len(self.cases)
        for name, why in self.undecided:
            print('UNDECIDED property=%s case=%s: %s' % (self.pid, name, why))
        for kf, key in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'explanation': rule,
                'cases_decided': decided, 'cases_undecided': len(self.undecided), 'obligations': self.obl,
                'traces': self.paths, 'branch_decisions': self.branches, 'comparison_atoms': self.atoms,
                'valuations': self.samples, 'functions_analysed': len(I.funcs_seen), 'calls_analysed': I.calls_seen,
                'functions': sorted(I.funcs_seen), 'files': sorted(I.files_seen), 'loops_summarised': sorted(I.loops_seen),
                'cases': self.cases[:200], 'undecided': [list(x) for x in self.undecided][:50]},
            'assumptions': assumptions or [],
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.viol)}
        path = os.path.join(EVID, self.pid + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            rp = os.path.join(EVID, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'violations': self.viol[:50]}, f, indent=1, default=str)
            for v in self.viol[:8]:
                print('%s: %s [%s] %s' % (v['where'] or v['site'] or '?', v['case'], v['label'], v['message'][:600]))
                if v['site']:
                    print('    trace ends at %s' % v['site'])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if decided < floor and self.undecided or decided == 0 and self.obl == 0:
            print('NO ANSWER property=%s: only %d of the cases could be decided' % (self.pid, decided))
            return 2
        print('OK property=%s cases=%d obligations=%d traces=%d valuations=%d functions=%d%s (%.1fs)' % (
            self.pid, decided, self.obl, self.paths, self.samples, len(I.funcs_seen),
            ' undecided=%d' % len(self.undecided) if self.undecided else '', time.time() - self.t0))
        return 0


def _key(x):
    if isinstance(x, dict):
        return (x.get('case'), x.get('label'))
    return str(x)


class Share:
    """Dynamic distribution of cases over forked processes."""

    def __init__(self, n):
        import mmap
        import multiprocessing
        self.n, self.idx, self.first = n, 0, False
        self.mem = mmap.mmap(-1, 1 << 16)
        self.lock = multiprocessing.Lock()

    def claim(self):
        i = self.idx
        self.idx += 1
        with self.lock:
            if self.mem[i]:
                return False
            self.mem[i] = 1
            return True

    def send(self, d):
        import pickle
        data = pickle.dumps(d)
        while data:
            data = data[os.write(self.fd, data):]
        os.close(self.fd)
        sys.stdout.flush()
        os._exit(0)

    def run(self, ctx, fn):
        import pickle
        sys.stdout.flush()
        kids = []
        for i in range(self.n):
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                for x, _ in kids:
                    os.close(x)
                self.fd, self.first = w, i == 0
                ctx.share = self
                try:
                    fn(ctx)
                except BaseException:
                    traceback.print_exc()
                sys.stderr.flush()
                os._exit(2)
            os.close(w)
            kids.append((r, pid))
        out = []
        for r, pid in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                return None
            out.append(pickle.loads(data))
        return out


def _short(x):
    if isinstance(x, (float, np.floating)):
        return '%.17g' % x
    return str(x)


def _flatten(xs):
    if isinstance(xs, (list, tuple)):
        for x in xs:
            yield from _flatten(x)
    elif isinstance(xs, np.ndarray):
        for x in xs.reshape(-1):
            yield x
    else:
        yield xs


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = {}
                body, _, what = line[6:].partition('::')
                for tok in body.split('|'):
                    k, _, v = tok.strip().partition('=')
                    d[k] = v
                if d.get('property') == pid:
                    d['what'] = what.strip()
                    out.append(d)
    return out
