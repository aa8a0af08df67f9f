"""Which local variables are dead at the head of a loop (always written before they are read again)."""
import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def dead_at(loop, fn):
    """names dead at the head of loop, a While or For of the function node fn"""
    names, captured = set(), set()
    inside = set(map(id, (x for s in loop.body for x in ast.walk(s))))
    if isinstance(loop, ast.While):
        inside |= set(map(id, ast.walk(loop.test)))
    for x in ast.walk(fn):
        if isinstance(x, FUNCS) and x is not fn:
            captured |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            captured |= set(x.names)
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and id(x) not in inside and not isinstance(x.ctx, ast.Store):
            captured.add(x.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and id(x) not in inside:
            captured.add(x.target.id)
    for s in loop.body + ([loop.target] if not isinstance(loop, ast.While) else []):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                names.add(x.name)
    return frozenset(v for v in names - captured if not reads_first(loop, v))


def reads_first(loop, v):
    if isinstance(loop, ast.While):
        if mentions(loop.test, v):
            return True
    elif stores(loop.target, v):
        return False
    return block(loop.body, v) == 'r'


def mentions(e, v):
    return e is not None and any(isinstance(x, ast.Name) and x.id == v and not isinstance(x.ctx, ast.Store) for x in ast.walk(e))


def stores(e, v):
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in ast.walk(e))


def block(ss, v):
    """'r': may be read before it is written; 'w': written or left on every way out; 'n': neither"""
    for s in ss:
        k = stmt(s, v)
        if k != 'n':
            return k
    return 'n'


def both(*ks):
    return 'r' if 'r' in ks else 'w' if all(k == 'w' for k in ks) else 'n'


def stmt(s, v):
    if isinstance(s, FUNCS):
        return 'r' if mentions(s, v) else 'n'
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return 'r' if mentions(s, v) else 'w'
    if isinstance(s, ast.AugAssign):
        return 'r' if mentions(s.value, v) or mentions(s.target, v) or stores(s.target, v) else 'n'
    if isinstance(s, ast.Assign):
        if mentions(s.value, v) or any(mentions(t, v) for t in s.targets):
            return 'r'
        return 'w' if any(stores(t, v) for t in s.targets) else 'n'
    if isinstance(s, ast.If):
        if mentions(s.test, v):
            return 'r'
        return both(block(s.body, v), block(s.orelse, v))
    if isinstance(s, ast.While):
        if mentions(s.test, v) or block(s.body, v) == 'r' or block(s.orelse, v) == 'r':
            return 'r'
        return 'n'
    if isinstance(s, (ast.For, ast.AsyncFor)):
        if mentions(s.iter, v) or mentions(s.target, v):
            return 'r'
        if not stores(s.target, v) and block(s.body, v) == 'r' or block(s.orelse, v) == 'r':
            return 'r'
        return 'n'
    if isinstance(s, (ast.With, ast.AsyncWith)):
        for i in s.items:
            if mentions(i.context_expr, v):
                return 'r'
            if i.optional_vars is not None and stores(i.optional_vars, v):
                return 'w'
        k = block(s.body, v)
        return k if k == 'r' else 'n'        # the manager may suppress an exception
    if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
        b = block(s.body, v)
        hs = [block(h.body, v) for h in s.handlers]
        if b == 'r' or 'r' in hs or block(s.finalbody, v) == 'r':
            return 'r'
        if b == 'n' and block(s.orelse, v) == 'r':
            return 'r'
        e = 'w' if b == 'w' or block(s.orelse, v) == 'w' else 'n'
        if block(s.finalbody, v) == 'w':
            return 'w'
        # "w" of the body may be a jump out of it, which is a way out too
        return both(e, *hs)
    # other statements: any mention is a read, walrus stores do not count as writes
    return 'r' if mentions(s, v) else 'n'
