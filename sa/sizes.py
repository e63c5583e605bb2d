"""Sizes the source itself distinguishes: integers that lengths are compared, sliced, stepped or split with.

The cases of the checks use batches of a few entries.  That is enough as long as the code treats every batch alike; where the
source mentions a size (a block length, a cut-off, a slice bound), batches on both sides of it have to be looked at as well.
"""
import ast
import os
import warnings

SIZED = {'size', 'shape', 'ndim', 'number_of_requests', 'number_of_scheduled_requests'}
CALLS = {'len', 'range', 'array_split', 'split', 'islice', 'reshape', 'arange', 'linspace', 'resize', 'take', 'min', 'max', 'maxsize'}
LEAST, MOST = 4, 100000


def _ints(node, env):
    """Integers an expression is built of."""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
            out.add(x.value)
        elif isinstance(x, ast.Constant) and isinstance(x.value, float) and x.value.is_integer():
            out.add(int(x.value))
        elif isinstance(x, ast.Name):
            out |= env.get(x.id, set())
        elif isinstance(x, ast.Attribute):
            out |= env.get('.' + x.attr, set())
        if isinstance(x, ast.BinOp):
            try:
                v = eval(compile(ast.Expression(x), '', 'eval'), {'__builtins__': {}}, {})
                if isinstance(v, (int, float)) and v == int(v):
                    out.add(int(v))
            except Exception:
                pass
    return out


def _sized(node, names):
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and (x.attr in SIZED or x.attr.lstrip('_') == 'length' or x.attr in names):
            return True
        if isinstance(x, ast.Call) and (getattr(x.func, 'id', None) or getattr(x.func, 'attr', '')) in ('len', '__len__', 'size', 'shape'):
            return True
        if isinstance(x, ast.Name) and x.id in names:
            return True
    return False


def _consts(body, env, prefix=''):
    for s in body:
        t = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
        for x in t:
            v = _ints(s.value, env) if not isinstance(s.value, (ast.Lambda,)) else set()
            if isinstance(x, ast.Name) and v and len(v) <= 4:
                env[prefix + x.id] = v
                env['.' + x.id] = v


def sizes(root):
    """Sorted list of (size, file, line)."""
    trees, env = [], {}
    for d, _, fs in os.walk(os.path.join(root, 'celest')):
        for f in sorted(fs):
            if f.endswith('.py') and 'constants' not in f:
                p = os.path.join(d, f)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        t = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError:
                    continue
                trees.append((os.path.relpath(p, root), t))
    out = {}
    for f, t in trees:
        glob = {}
        _consts(t.body, glob)
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                _consts(c.body, glob)
        for fn in ast.walk(t):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            env = dict(glob)
            a = fn.args
            for x, d in list(zip(a.args[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                v = _ints(d, glob)
                if v:
                    env[x.arg] = v
            names = set()
            for _ in range(3):
                for s in ast.walk(fn):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None:
                        for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                            for y in ast.walk(x):
                                if isinstance(y, ast.Name):
                                    if _sized(s.value, names):
                                        names.add(y.id)
                                    v = _ints(s.value, env) if isinstance(s.value, (ast.Constant, ast.BinOp, ast.Name, ast.Attribute)) else set()
                                    if v and len(v) <= 4:
                                        env[y.id] = env.get(y.id, set()) | v
            def add(node, line):
                for v in _ints(node, env):
                    if LEAST <= abs(v) <= MOST:
                        out.setdefault(abs(v), (f, line))
            for x in ast.walk(fn):
                if isinstance(x, ast.Slice):
                    for b in (x.lower, x.upper, x.step):
                        if b is not None:
                            add(b, b.lineno)
                elif isinstance(x, ast.Compare) and _sized(x, names):
                    add(x, x.lineno)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.FloorDiv, ast.Mod, ast.Div)) and _sized(x.left, names):
                    add(x.right, x.lineno)
                elif isinstance(x, ast.Call):
                    nm = getattr(x.func, 'id', None) or getattr(x.func, 'attr', '')
                    if nm in CALLS and nm not in ('min', 'max'):
                        for y in x.args:
                            add(y, x.lineno)
                    elif nm in ('min', 'max') and any(_sized(y, names) for y in x.args):
                        for y in x.args:
                            add(y, x.lineno)
                    for kw in x.keywords:
                        if kw.arg in ('maxsize', 'maxlen', 'chunksize', 'size', 'max_rows'):
                            add(kw.value, x.lineno)
    return sorted((v,) + w for v, w in out.items())


if __name__ == '__main__':
    import sys
    for x in sizes(sys.argv[1] if len(sys.argv) > 1 else '/repo'):
        print(*x)
