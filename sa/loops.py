"""Loops: unrolled while their extent is decided, otherwise summarised."""
import ast
from . import terms as T
from .terms import Term
from .values import *
from .interp import RaiseEx, ReturnEx, BreakEx, ContinueEx, Infeasible

LIMIT = 3000          # concrete iterations after which a loop is taken to diverge
FORKS = 14            # iterations of a loop whose condition splits the trace


def foreach(I, it, body, node, env):
    if isinstance(it, range) and len(it) >= 20 and isinstance(node, ast.For) and _has_break(node.body) \
            and isinstance(node.target, ast.Name):
        r = summarise_for(I, it, node, env)
        if r is not None:
            return r
    g = I.libs.iterate(I, it)
    n = 0
    for v in g:
        n += 1
        if n > LIMIT:
            raise I.libs.Diverge(I)
        try:
            body(v)
        except ContinueEx:
            pass
        except BreakEx:
            return False
    return True


def _has_break(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Break):
                return True
    return False


def while_(I, s, env):
    forks = 0
    tried = False
    for n in range(LIMIT):
        I.mark(s, env)
        before = len(I.guards)
        if not tried:
            paths = I.explore(lambda: I.truth(I.ev(s.test, env)), 64)
            if any(p.guards for p in paths):
                tried = True
                r = summarise(I, s, env, lambda: I.truth(I.ev(s.test, env)), s.body)
                if r is not None:
                    return r
        if not tried and n == 0 and _has_break(s.body) and not _stores(s.body)[1]:
            try:
                paths = I.explore(lambda: I.exec_block(s.body, env), 64)
            except Unsupported:
                paths = []
            if any(p.kind == 'break' and p.guards for p in paths):
                r = summarise(I, s, env, lambda: I.truth(I.ev(s.test, env)), s.body)
                if r is not None:
                    return r
        if tried:
            unjoin(I, s, env)
        if not I.truth(I.ev(s.test, env)):
            return True
        if len(I.guards) > before:
            forks += 1
            if forks > FORKS:
                raise Unsupported('loop at %s: no summary and no bound on its iterations' % I.site)
        try:
            I.exec_block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return False
    raise I.libs.Diverge(I)


def unjoin(I, s, env):
    """Split the trace on the conditions under which the integers of the loop test differ, so that they are concrete again."""
    for n in ast.walk(s.test):
        if not isinstance(n, ast.Name):
            continue
        v = I.heap[env].vars.get(n.id)
        if isinstance(v, Arr) and v.shape == () and I.heap[v.buf].dtype == 'i' and not v.mem:
            t = I.np.elems(I, v)[0]
        else:
            t = v
        if not isinstance(t, Term) or t.sort != 'i':
            continue
        u = t
        for _ in range(200):
            x = next((y for y in T.walk((u,)) if y.op == 'ite'), None) if isinstance(u, Term) else None
            if x is None:
                break
            u = T.subst(u, {x: x.args[1] if I.decide(x.args[0]) else x.args[2]})
        if u is not t:
            I.wcell(env).vars[n.id] = _pack(I, v, [u])


def _stores(body):
    names = set()
    bad = False
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                bad = True
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return, ast.Await, ast.Delete, ast.Try)):
                bad = True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bad = True
    return names, bad


def _numeric(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool) or \
        isinstance(v, Term) and v.sort in 'fib'


def _flat(I, v):
    """Scalars of a carried value, or None."""
    if _numeric(v):
        return [v]
    if isinstance(v, Arr) and I.heap[v.buf].dtype in 'fib' and not v.mem:
        return I.np.elems(I, v)
    return None


def _pack(I, v, xs):
    if isinstance(v, Arr):
        return I.newarr(xs, v.shape, I.heap[v.buf].dtype, v.zero)
    return xs[0]


def _like(I, a, b):
    if isinstance(a, Arr) != isinstance(b, Arr):
        return False
    return not isinstance(a, Arr) or a.shape == b.shape


def summarise(I, s, env, test, body, counter=None):
    """Replace the loop by the fixpoint term of its carried scalars.

    Returns None when the loop is not of that shape (state unchanged)."""
    names, bad = _stores(body)
    if bad:
        return None
    saved = (dict(I.heap), len(I.events), I.nid)
    vars = I.heap[env].vars
    carried = [n for n in sorted(names) if n in vars]
    if counter is not None:
        carried = [n for n in carried if n != counter[0]]
    try:
        return _summarise(I, s, env, test, body, carried, names, counter)
    except Unsupported:
        I.heap = saved[0]
        del I.events[saved[1]:]
        return None


def _summarise(I, s, env, test, body, carried, names, counter):
    # peel one iteration so that locals first assigned in the body exist and dtypes settle
    import copy
    h0 = dict(I.heap)
    ent = {n: I.heap[env].vars[n] for n in carried}
    for n, v in ent.items():
        if _flat(I, v) is None:
            raise Unsupported('loop carries a non-numeric local')
    nf = I.nfresh
    syms, vals = [], {}
    for n, v in ent.items():
        xs = _flat(I, v)
        ss = [I.fresh('loop:' + n, T.sort_of(x)) for x in xs]
        # numeric scalars may become floats inside the loop
        ss = [I.fresh('loop:' + n, 'f') if T.sort_of(x) == 'i' and not isinstance(v, Arr) and _floaty(body, n) else y
              for x, y in zip(xs, ss)]
        syms.append((n, ss, xs))
    brk = I.fresh('loop:broken', 'b')
    cnt = I.fresh('loop:count', 'i') if counter is not None else None
    w = I.wcell(env)
    for n, ss, xs in syms:
        w.vars[n] = _pack(I, ent[n], list(ss))
    if counter is not None:
        w.vars[counter[0]] = T.add(counter[1].start, T.mul(cnt, counter[1].step))
    base_ids = set(I.heap)
    # condition
    if test is not None:
        cps = I.explore(test, 64)
        cond = False
        for p in cps:
            if p.kind != 'return' or _effects(I, p, base_ids, env):
                raise Unsupported('loop test with effects')
            if p.value:
                cond = T.or_(cond, p.guard)
    else:
        cond = T.lt(cnt, len(counter[1]))
    cond = T.and_(cond, T.not_(brk))

    def run():
        I.exec_block(body, env)
    if test is not None:
        pass
    bps = I.explore(run, 64)
    ups = {n: None for n, _, _ in syms}
    broken = False
    first = True
    new = {n: list(ss) for n, ss, _ in syms}
    for p in bps:
        if p.kind not in ('return', 'next', 'break') or _effects(I, p, base_ids, env):
            raise Unsupported('loop body with effects')
        for e in p.events:
            if e[0] in ('npdiv', 'div'):
                I.events.append(e)
            else:
                raise Unsupported('loop body with events')
        if p.kind == 'break':
            broken = T.or_(broken, p.guard)
    for n, ss, xs in syms:
        outs = []
        for p in bps:
            v = p.heap[env].vars.get(n)
            if not _like(I, ent[n], v):
                raise Unsupported('loop changes the shape of a local')
            hs = I.heap
            I.heap = p.heap
            xs2 = _flat(I, v)
            I.heap = hs
            if xs2 is None:
                raise Unsupported('loop carries a non-numeric local')
            outs.append((p.guard, xs2))
        for j in range(len(ss)):
            r = outs[-1][1][j]
            for g, o in reversed(outs[:-1]):
                r = T.ite(g, o[j], r)
            new[n][j] = r
    vs, init, upd, names_ = [], [], [], []
    for n, ss, xs in syms:
        for j, (sy, x) in enumerate(zip(ss, xs)):
            vs.append(sy)
            init.append(T.cast_f(x) if sy.sort == 'f' else x)
            upd.append(new[n][j])
            names_.append((n, j))
    vs.append(brk)
    init.append(False)
    upd.append(broken)
    if cnt is not None:
        vs.append(cnt)
        init.append(0)
        upd.append(T.ite(broken, cnt, T.add(cnt, 1)) if broken is not False else T.add(cnt, 1))
    nv = len(vs)
    late = _late_locals(I, bps, env, names, ent, counter)
    for n, v, dt, cols in late:
        for j, col in enumerate(cols):
            r = col[-1]
            for p, o in reversed(list(zip(bps, col))[:-1]):
                r = T.ite(p.guard, o, r)
            sort = {'f': 'f', 'i': 'i', 'b': 'b'}[dt]
            vs.append(I.fresh('loop:' + n, sort))
            init.append({'f': float('nan'), 'i': 0, 'b': False}[sort])
            upd.append(T.cast_f(r) if sort == 'f' else r)
    loop = T.Loop(vs, init, cond, upd, I.site)
    # locals that are loop invariant keep their value; locals first bound in the body are left unbound
    I.heap = h0
    w = I.wcell(env)
    k = 0
    for n, ss, xs in syms:
        outs = []
        for j in range(len(ss)):
            outs.append(ss[j] if False else (xs[j] if new[n][j] is ss[j] else T.loopout(loop, k)))
            k += 1
        w.vars[n] = _pack(I, ent[n], outs)
    if cnt is not None:
        w.vars[counter[0]] = T.add(counter[1].start, T.mul(T.loopout(loop, nv - 1), counter[1].step))
    fresh_locals = [n for n in names if n not in ent and (counter is None or n != counter[0])]
    for n in fresh_locals:
        w.vars.pop(n, None)
    k = nv
    for n, v, dt, cols in late:
        xs = [T.loopout(loop, k + j) for j in range(len(cols))]
        w.vars[n] = I.newarr(xs, v.shape, dt, v.zero) if isinstance(v, Arr) else xs[0]
        k += len(cols)
    I.loops_seen.add(repr(I.site))
    b = T.loopout(loop, nv - (1 if cnt is None else 2)) if broken is not False else False
    if broken is not False and s.orelse:
        return not I.decide(b)
    return True


def _late_locals(I, bps, env, names, ent, counter):
    """Locals first bound in the body, on every path and with one shape: (name, value, dtype, columns of elements per path)."""
    res = []
    for n in sorted(names):
        if n in ent or counter is not None and n == counter[0]:
            continue
        vals = []
        for p in bps:
            v = p.heap[env].vars.get(n)
            hs = I.heap
            I.heap = p.heap
            xs = _flat(I, v) if v is not None else None
            dt = None if xs is None else I.heap[v.buf].dtype if isinstance(v, Arr) else ''.join(sorted({T.sort_of(x) for x in xs}))
            I.heap = hs
            vals.append((v, xs, dt))
        if any(x[1] is None or not _like(I, vals[0][0], x[0]) or x[2] != vals[0][2] for x in vals) or vals[0][2] not in ('f', 'i', 'b'):
            continue
        v = vals[0][0]
        res.append((n, v, vals[0][2], list(zip(*(x[1] for x in vals)))))
    return res


def _floaty(body, n):
    return True


def _effects(I, p, base_ids, env):
    """Did the path change anything but the loop's own locals?"""
    for i in base_ids:
        if i == env:
            continue
        if p.heap.get(i) is not I.heap.get(i):
            return True
    return False


def summarise_for(I, it, node, env):
    names, bad = _stores(node.body)
    if bad or node.target.id in names:
        return None
    # only when leaving the loop depends on unknown values: look at the first iterations
    saved = dict(I.heap)

    def two():
        for v in list(it)[:2]:
            try:
                I.assign(node.target, v, env)
                I.exec_block(node.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                return
    try:
        ps = I.explore(two, 64)
    except Unsupported:
        return None
    if not any(p.guards for p in ps) or any(p.kind != 'return' for p in ps):
        return None
    r = summarise(I, node, env, None, node.body, (node.target.id, it))
    return r
