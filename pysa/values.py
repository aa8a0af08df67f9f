"""Abstract values.  All of them are nested tuples, so that they hash and compare structurally.

('K', tname, v)              constant
('T', items)                 tuple
('E', clsref, name, K)       enum member
('O', oid)                   reference to a heap object (instances, classes, dicts, lists, frames, modules)
('F', fid, closure, defs, kwdefs, clsref, deco)   function
('B', self, F)               bound method
('M', recv, name)            method of a value that is not an instance of an analysed class
('X', dotted)                object of a module that is not analysed
('CO', F, args, kwargs)      coroutine object
('GEN', F, args, kwargs)     generator object
('AW', name, args, kw, site) awaitable of a modelled library
('FUT', kind, val, site)     future whose work has been analysed already
('S', op, args, typ, gen)    symbolic value with its provenance; gen 0 is the most recent one of its site
"""
from fractions import Fraction


def K(v):
    return ('K', type(v).__name__, v)


NONE, TRUE, FALSE = K(None), K(True), K(False)
ZERO, ONE = K(0), K(1)


def T(*items):
    return ('T', tuple(items))


def S(op, args=(), typ=None, gen=0):
    return ('S', op, args, typ, gen)


def X(dotted):
    return ('X', dotted)


def is_k(v, *types):
    return v[0] == 'K' and (not types or type(v[2]) in types)


def kval(v):
    return v[2]


def const(v):
    """(True, python value) if v is a constant (enum members by their value)"""
    if v[0] == 'K':
        return True, v[2]
    if v[0] == 'E':
        return const(v[3])
    if v[0] == 'T':
        out = []
        for i in v[1]:
            ok, c = const(i)
            if not ok:
                return False, None
            out.append(c)
        return True, tuple(out)
    return False, None


def walk(v):
    """all sub-terms of a value"""
    stack = [v]
    while stack:
        t = stack.pop()
        yield t
        if isinstance(t, tuple):
            for i in t:
                if isinstance(i, tuple):
                    stack.append(i)


def mentions(v, pred):
    return any(pred(t) for t in walk(v) if t and isinstance(t[0], str))


# ---------------------------------------------------------------- linear forms
# {atom: Fraction}, the constant under atom None

def lin_of(v):
    """linear form of a numeric value or None"""
    if v[0] == 'K' and type(v[2]) in (int, float, bool):
        try:
            return {None: Fraction(v[2])} if v[2] else {}
        except (ValueError, OverflowError):
            return None
    if v[0] == 'E':
        return lin_of(v[3])
    if v[0] == 'S':
        if v[1] == 'lin':
            d = dict(v[2][1])
            if v[2][0]:
                d[None] = v[2][0]
            return d
        if v[1] == 'enum':
            return lin_of(v[2][1])
        return {v: Fraction(1)}
    return None


def lin_val(d, typ='int'):
    d = {k: c for k, c in d.items() if c}
    c0 = d.pop(None, Fraction(0))
    if not d:
        return K(int(c0)) if c0.denominator == 1 and typ != 'float' else K(float(c0))
    if not c0 and len(d) == 1:
        (k, c), = d.items()
        if c == 1:
            return k
    return ('S', 'lin', (c0, tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))), typ, 0)


def lin_add(a, b, sign=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + sign * c
    return {k: c for k, c in d.items() if c}


def lin_scale(a, f):
    return {k: c * f for k, c in a.items()}


def lin_const(d):
    """the constant, or None if not constant"""
    d = {k: c for k, c in d.items() if c}
    if not d:
        return Fraction(0)
    if set(d) == {None}:
        return d[None]
    return None


def typeof(v):
    """a name of the type of v, or None"""
    t = v[0]
    if t == 'K':
        return 'NoneType' if v[2] is None else v[1]
    if t == 'T':
        return 'tuple'
    if t == 'S':
        return v[3] if isinstance(v[3], str) else None
    if t in ('F', 'B', 'M'):
        return 'function'
    if t == 'CO':
        return 'coroutine'
    if t == 'FUT':
        return 'concurrent.futures.Future'
    return None


# ---------------------------------------------------------------- strings and bytes

def cat(parts, typ):
    """concatenation in normal form"""
    flat = []
    for p in parts:
        if p[0] == 'S' and p[1] == 'cat' and p[3] == typ:
            flat.extend(p[2])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p[0] == 'K' and len(p[2]) == 0:
            continue
        if out:
            q = out[-1]
            if p[0] == 'K' and q[0] == 'K':
                out[-1] = K(q[2] + p[2])
                continue
            if q[0] == 'S' and p[0] == 'S' and q[1] == p[1] == 'sl' and q[2][0] == p[2][0] and q[2][2] is not None:
                # adjacent slices of one base
                end = lin_val(lin_add(lin_of(q[2][1]), lin_of(q[2][2])))
                if end == p[2][1]:
                    ln = None if p[2][2] is None else lin_val(lin_add(lin_of(q[2][2]), lin_of(p[2][2])))
                    out[-1] = S('sl', (q[2][0], q[2][1], ln), q[3], q[4])
                    continue
        out.append(p)
    if not out:
        return K('' if typ == 'str' else b'')
    if len(out) == 1 and typeof(out[0]) == typ:
        return out[0]
    return S('cat', tuple(out), typ)


def show(v, depth=3):
    """short text of a value for reports"""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    t = v[0]
    if t == 'K':
        return repr(v[2])
    if t == 'E':
        return v[2]
    if t == 'T':
        return '(' + ', '.join(show(i, depth - 1) for i in v[1]) + ')'
    if t == 'X':
        return v[1]
    if t == 'O':
        return '<%s>' % (v[1][0] if isinstance(v[1], tuple) else v[1])
    if t == 'S':
        if depth <= 0:
            return v[1] + '(..)'
        if v[1] == 'lin':
            return '+'.join(['%s*%s' % (c, show(a, depth - 1)) for a, c in v[2][1]] + ([str(v[2][0])] if v[2][0] else []))
        a = ', '.join(show(i, depth - 1) if isinstance(i, tuple) else str(i) for i in v[2] if i is not None)
        return '%s%s(%s)' % ('old:' if v[4] else '', v[1], a)
    if t == 'F':
        return 'function ' + str(v[1])
    if t == 'B':
        return 'method ' + show(v[2])
    return t
