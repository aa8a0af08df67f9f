"""Models of strings, bytes and struct."""
import string
import struct as _struct

from .values import *
from .core import *


def content(v, st):
    """the bytes/text held by a buffer object (bytearray, BytesIO, StringIO), or v itself"""
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and o.kind == 'ext' and '.v' in o.f:
            return o.f['.v']
        if o is not None and o.kind == 'ext' and o.cls[1] == 'memoryview':
            return o.f['.v']
    return v


def is_text(v):
    return typeof(v) in ('str', 'bytes')


def text_parts(v):
    return list(v[2]) if v[0] == 'S' and v[1] == 'cat' else [v]


# ---------------------------------------------------------------- slices

def cut(ip, v, start, length, st):
    """exactly [start, start+length) of a text value; start, length linear forms, length None: to the end.
    Both bounds are known to lie inside v.  None if v can not be cut there."""
    typ = typeof(v) or 'bytes'
    c0 = lin_const(start)
    cl = lin_const(length) if length is not None else None
    if length is not None and cl == 0:
        return K('' if typ == 'str' else b'')
    if c0 == 0 and length is None:
        return v
    if v[0] == 'K':
        if not v[2]:
            return v
        if c0 is None or (length is not None and cl is None):
            return S('sl', (v, lin_val(start), None if length is None else lin_val(length)), typ)
        return K(v[2][int(c0):(None if length is None else int(c0 + cl))])
    total = ip.length_of(v, st)
    if c0 == 0 and length is not None and total is not None and not lin_add(total, length, -1):
        return v
    if v[0] == 'S' and v[1] == 'cat':
        out, pos = [], {}
        i, parts = 0, list(v[2])
        # skip whole parts before start
        while i < len(parts):
            d = lin_add(start, pos, -1)
            if not d:
                break
            l = ip.length_of(parts[i], st)
            if l is None:
                return None
            rest = lin_add(d, l, -1)        # start - (pos + l)
            if not rest or ip.know_pos(rest, st) is True or (lin_const(rest) is not None and lin_const(rest) >= 0) \
                    or ip._ge0(rest, st, False, 0) \
                    or (ip._allint(rest) and ip.know_pos(lin_add(rest, {None: Fraction(1)}), st) is True):
                pos = lin_add(pos, l)
                i += 1
                continue
            break
        if i == len(parts):
            return K('' if typ == 'str' else b'') if not lin_add(start, pos, -1) else None
        need = length
        first = True
        while i < len(parts):
            p = parts[i]
            l = ip.length_of(p, st)
            off = lin_add(start, pos, -1) if first else {}
            first = False
            if off and (ip.know_pos(lin_scale(off, -1), st) is True):
                return None
            avail = lin_add(l, off, -1)
            if need is None:
                x = cut(ip, p, off, None, st)
                if x is None:
                    return None
                out.append(x)
            else:
                r = lin_add(need, avail, -1)    # what is needed after this part
                if not r or ip._ge0(r, st, False, 0):
                    x = cut(ip, p, off, None, st)
                    need = r
                else:
                    if ip.know_pos(r, st) is not False and not ip._ge0(lin_scale(r, -1), st, False, 0):
                        return None
                    x = cut(ip, p, off, need, st)
                    need = {}
                if x is None:
                    return None
                out.append(x)
                if not need:
                    return cat(out, typ)
            pos = lin_add(pos, l)
            i += 1
        return cat(out, typ) if need is None else None
    if v[0] == 'S' and v[1] == 'fld':
        return S('sl', (v, lin_val(start), None if length is None else lin_val(length)), 'bytes')
    if v[0] == 'S' and v[1] == 'sl':
        b, s0, l0 = v[2]
        ns = lin_add(lin_of(s0), start)
        if length is None:
            nl = None if l0 is None else lin_val(lin_add(lin_of(l0), start, -1))
        else:
            nl = lin_val(length)
        return S('sl', (b, lin_val(ns), nl), typ, v[4])
    return S('sl', (v, lin_val(start), None if length is None else lin_val(length)), typ)


def cut_or_slice(ip, v, start, length, st):
    r = cut(ip, v, start, length, st)
    if r is None:
        r = S('slice', (v, lin_val(start), NONE if length is None else lin_val(length)), typeof(v))
    return r


def forks(ip, key, st):
    """[(bool, st)] for a fact key/bool as made by pos_key, eq_key"""
    if key is True or key is False:
        return [(key, st)]
    return ip.test(ip.fact(key[0], key[1]), st)


def slice_text(ip, v, lo, hi, step, st, site):
    """v[lo:hi:step] of a text value, with Python's clamping"""
    typ = typeof(v)
    if step not in (NONE, ONE):
        ok = all(x == NONE or is_k(x, int) for x in (lo, hi, step)) and v[0] == 'K'
        if ok:
            return [(True, K(v[2][slice(lo[2], hi[2], step[2])]), st)]
        return [(True, S('slice', (v, lo, hi, step), typ), st)]
    if v[0] == 'K' and all(x == NONE or is_k(x, int) for x in (lo, hi)):
        return [(True, K(v[2][slice(lo[2], hi[2])]), st)]
    for x in (lo, hi):
        if x != NONE and (lin_of(x) is None or x[0] == 'K' and not isinstance(x[2], int)):
            return [ip.raise_('builtins.TypeError', st, site)]
    if v[0] == 'K' and not v[2]:
        return [(True, v, st)]
    n = ip.length_of(v, st)
    lo_ = {} if lo == NONE else lin_of(lo)
    hi_ = None if hi == NONE else lin_of(hi)
    out = []
    # negative bounds count from the end
    starts = []
    for neg, s in forks(ip, negkey(ip, lo_), st):
        if neg:
            l2 = lin_add(n, lo_)
            for neg2, s2 in forks(ip, negkey(ip, l2), s):
                starts.append(({} if neg2 else l2, s2))
        else:
            starts.append((lo_, s))
    for l1, s in starts:
        ends = []
        if hi_ is None:
            ends.append((None, s))
        else:
            for neg, s2 in forks(ip, negkey(ip, hi_), s):
                if neg:
                    h2 = lin_add(n, hi_)
                    for neg2, s3 in forks(ip, negkey(ip, h2), s2):
                        ends.append(({} if neg2 else h2, s3))
                else:
                    # clamped at the end?
                    for over, s3 in forks(ip, ip.pos_key(lin_add(hi_, n, -1)), s2):
                        ends.append((None if over else hi_, s3))
        for h1, s2 in ends:
            stop = n if h1 is None else h1
            # empty if start >= stop
            for some, s3 in forks(ip, ip.pos_key(lin_add(stop, l1, -1)), s2):
                if not some:
                    out.append((True, K('' if typ == 'str' else b''), s3))
                elif h1 is None:
                    out.append((True, cut_or_slice(ip, v, l1, None, s3), s3))
                else:
                    out.append((True, cut_or_slice(ip, v, l1, lin_add(h1, l1, -1), s3), s3))
    return out


def negkey(ip, d):
    c = lin_const(d)
    if c is not None:
        return c < 0
    if all((a is None and c >= 0) or (a is not None and c > 0 and ip.nonneg(a)) for a, c in d.items()):
        return False
    return ip.pos_key(lin_scale(d, -1))


# ---------------------------------------------------------------- struct

SIGNED = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}
INTCODES = set('bBhHiIlLqQnN')


def code_of(size, signed):
    return SIGNED[size] if signed else SIGNED[size].upper()


class Fmt(object):
    """parsed struct format: list of (code, order, size value, kind)"""

    def __init__(self):
        self.items = []     # ('int', order, code, size) | ('s', None, None, sizeval) | ('x', .., n) | ('other', order, code, size)
        self.bad = False

    def total(self):
        d = {}
        for it in self.items:
            d = lin_add(d, lin_of(it[3]))
        return d


def parse_fmt(ip, v, st):
    parts = []
    for p in text_parts(v):
        if p[0] == 'K':
            t = p[2].decode('latin1') if isinstance(p[2], bytes) else p[2]
            parts.extend(t)
        elif p[0] == 'S' and p[1] == 'str' and typeof(p[2][0]) in ('int', None):
            parts.append(p[2][0])
        else:
            return None
    f = Fmt()
    order, native, first = '<', True, True
    num = None
    done = ''
    for c in parts:
        if isinstance(c, tuple):
            if num is not None:
                return None
            num = c
            first = False
            continue
        if first and c in '@=<>!':
            native = c == '@'
            order = '>' if c in '>!' else '<'
            first = False
            done = c
            continue
        first = False
        if c.isspace():
            continue
        if c.isdigit():
            if isinstance(num, tuple):
                return None
            num = (num or '') + c
            continue
        n = K(int(num)) if isinstance(num, str) else num
        num = None
        if c in 's':
            f.items.append(('s', None, 's', n if n is not None else ONE))
            if is_k(f.items[-1][3]):
                done += '%ds' % f.items[-1][3][2]
            continue
        if n is not None and not is_k(n):
            return None
        cnt = n[2] if n is not None else 1
        if c == 'x':
            f.items.append(('x', None, 'x', K(cnt)))
            done += '%dx' % cnt
            continue
        try:
            for _ in range(cnt):
                if native:
                    before = _struct.calcsize(done)
                    after = _struct.calcsize(done + c)
                    size = _struct.calcsize(c)
                    if after - before > size:
                        f.items.append(('x', None, 'x', K(after - before - size)))
                else:
                    size = _struct.calcsize('<' + c)
                done += c
                if c in INTCODES:
                    f.items.append(('int', '>' if size == 1 else order, code_of(size, c.islower()), K(size)))
                else:
                    f.items.append(('other', order, c, K(size)))
        except _struct.error:
            f.bad = True
            return f
    if num is not None:
        f.bad = True
    return f


RANGES = {}
for _s, _c in SIGNED.items():
    RANGES[_c] = (-(1 << (8 * _s - 1)), (1 << (8 * _s - 1)) - 1)
    RANGES[_c.upper()] = (0, (1 << (8 * _s)) - 1)


def fits(ip, v, code, st):
    """does the number fit the code: True / False / None (unknown)"""
    lo, hi = RANGES[code]
    ok, c = const(v)
    if ok:
        if not isinstance(c, int):
            return 'type'
        return lo <= c <= hi
    if typeof(v) in ('str', 'bytes', 'float', 'tuple', 'NoneType'):
        return 'type'
    if v[0] == 'O' or v[0] in ('F', 'T'):
        return 'type'
    if st is not None and st.facts.get(('fits', v, K(code))):
        return True
    w = v
    if w[0] == 'S' and w[1] == 'enum':
        if st is not None:
            vals = ip.enum_values(w[2][0], st)
            if vals and all(isinstance(x, int) and lo <= x <= hi for x in vals):
                return True
        w = w[2][1]
    if w[0] == 'S' and w[1] == 'unp' and w[2][3] in RANGES:
        l2, h2 = RANGES[w[2][3]]
        if lo <= l2 and h2 <= hi:
            return True
    if w[0] == 'S' and w[1] == 'op' and w[2][0] == 'BitAnd':
        for m in w[2][1:]:
            if is_k(m, int) and 0 <= m[2] <= hi and lo <= 0:
                return True
    # bounds on the path
    l = lin_of(w)
    if l is not None:
        a = ip.know_pos(lin_add({None: Fraction(hi + 1)}, l, -1), st)
        b = ip.know_pos(lin_add(l, {None: Fraction(1 - lo)}), st)
        if a is True and b is True:
            return True
        if a is False or b is False:
            return False
    return None


def pack(ip, f, args, st, site):
    """struct.pack with a parsed format"""
    vals = [it for it in f.items if it[0] != 'x']
    if f.bad or len(vals) != len(args):
        return [ip.raise_('struct.error', st, site, ('format',))]
    args = list(args)
    parts, doubt = [], []
    for it in f.items:
        if it[0] == 'x':
            parts.append(K(b'\0' * it[3][2]))
            continue
        a = args.pop(0)
        if it[0] == 'int':
            r = fits(ip, a, it[2], st)
            if r is False or r == 'type':
                return [ip.raise_('struct.error', st, site, ('range',))]
            if r is None:
                doubt.append((a, it[2]))
            w = a[2][1] if a[0] == 'S' and a[1] == 'enum' else a
            if w[0] == 'S' and w[1] == 'unp' and w[2][1:4] == (ZERO, it[1], it[2]) and ip.length_of(w[2][0], st) == lin_of(it[3]):
                parts.append(w[2][0])
            else:
                parts.append(S('fld', (it[1], it[2], a, it[3]), 'bytes'))
        elif it[0] == 's':
            a = content(a, st)
            if typeof(a) not in ('bytes', None):
                return [ip.raise_('struct.error', st, site, ('type',))]
            n = ip.length_of(a, st)
            if n is not None and not lin_add(n, lin_of(it[3]), -1):
                parts.append(a)
            elif a[0] == 'K' and is_k(it[3]):
                parts.append(K(a[2][:it[3][2]].ljust(it[3][2], b'\0')))
            else:
                parts.append(S('fld', (None, 's', a, it[3]), 'bytes'))
        else:
            parts.append(S('fld', (it[1], it[2], a, it[3]), 'bytes'))
    out = []
    if doubt:
        s2 = st.clone()
        out.append(ip.raise_('struct.error', s2, site, ('range',) + tuple(a for a, _ in doubt)))
        for a, code in doubt:
            st.facts[('fits', a, K(code))] = True
    out.append((True, cat(parts, 'bytes'), st))
    return out


def unpack(ip, f, data, st, site, exact=True):
    data = content(data, st)
    if f.bad:
        return [ip.raise_('struct.error', st, site, ('format',))]
    if typeof(data) not in ('bytes', None):
        return [ip.raise_('builtins.TypeError', st, site)]
    total = f.total()
    n = ip.length_of(data, st)
    d = lin_add(n, total, -1)
    c = lin_const(d)
    out = []
    if exact:
        if c is not None:
            rs = [(c == 0, st)]
        else:
            rs = forks(ip, ip.eq_key(lin_val(n), lin_val(total)), st)
    else:
        rs = forks(ip, ip.pos_key(lin_add(d, {None: Fraction(1)})), st)
    for same, s in rs:
        if not same:
            out.append(ip.raise_('struct.error', s, site, ('length',)))
            continue
        vals, pos = [], {}
        for it in f.items:
            if it[0] == 'x':
                pos = lin_add(pos, lin_of(it[3]))
                continue
            if it[0] == 's':
                last = it is f.items[-1] and exact
                x = cut_or_slice(ip, data, pos, lin_of(it[3]), s)
                vals.append(x)
            else:
                vals.append(read_num(ip, data, pos, it, s))
            pos = lin_add(pos, lin_of(it[3]))
        out.append((True, T(*vals), s))
    return out


def read_num(ip, data, pos, it, st):
    piece = cut(ip, data, pos, lin_of(it[3]), st)
    typ = 'int' if it[0] == 'int' else 'float' if it[2] in 'fde' else 'bool' if it[2] == '?' else 'bytes'
    if piece is None:
        return S('unp', (data, lin_val(pos), it[1], it[2]), typ)
    if piece[0] == 'K':
        try:
            code = it[2]
            return K(_struct.unpack((it[1] or '>') + code, piece[2])[0])
        except _struct.error:
            pass
    if piece[0] == 'S' and piece[1] == 'fld' and piece[2][3] == it[3]:
        o, c, v, _ = piece[2]
        if (o, c) == (it[1], it[2]):
            return v
        return S('unp', (piece, ZERO, it[1], it[2]), typ)
    if piece[0] == 'S' and piece[1] == 'sl':
        return S('unp', (piece[2][0], piece[2][1], it[1], it[2]), typ, piece[4])
    return S('unp', (piece, ZERO, it[1], it[2]), typ)


# ---------------------------------------------------------------- formatting

def to_str(ip, v, st, spec=''):
    """text of str(v), one state"""
    v = content(v, st) if v[0] == 'O' and False else v
    ok, c = const(v)
    if v[0] == 'E':
        return to_str(ip, v[3], st) if ip.is_sub(v[1], X('enum.IntEnum'), st) or ip.is_sub(v[1], X('builtins.int'), st) \
            else K('%s.%s' % (ip.cls_name(v[1], st), v[2]))
    if ok:
        return K(str(c))
    if v[0] == 'S' and v[1] == 'enum' and ip.is_sub(v[2][0], X('builtins.int'), st):
        v = v[2][1]
    if typeof(v) == 'str':
        return v
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and isinstance(o.cls, tuple) and o.kind == 'inst':
            r = ip.cls_lookup(o.cls, '__str__', st) or ip.cls_lookup(o.cls, '__repr__', st)
            if r and r[0][0] == 'F':
                s2 = st.clone()
                mon, ip.mon = ip.mon, type(ip.mon).__mro__[-2]()
                try:
                    rs = ip.call(('B', v, r[0]), [], [], s2, 'str')
                finally:
                    ip.mon = mon
                if len(rs) == 1 and rs[0][0] and typeof(rs[0][1]) == 'str':
                    return rs[0][1]
    return S('str', (v,), 'str')


def percent(ip, fmt, args, st, site):
    """fmt % args"""
    if fmt[0] != 'K':
        return [(True, S('fmt', (fmt, args), typeof(fmt)), st)]
    byt = isinstance(fmt[2], bytes)
    text = fmt[2].decode('latin1') if byt else fmt[2]
    vals = list(args[1]) if args[0] == 'T' else [args]
    parts, i, n = [], 0, 0
    while i < len(text):
        c = text[i]
        if c != '%':
            parts.append(K(c))
            i += 1
            continue
        i += 1
        if text[i:i + 1] == '%':
            parts.append(K('%'))
            i += 1
            continue
        if text[i:i + 1] == '(':
            return [(True, S('fmt', (fmt, args), 'str'), st)]
        j = i
        while j < len(text) and text[j] in '#0- +.123456789':
            j += 1
        spec, conv = text[i:j], text[j:j + 1]
        i = j + 1
        if n >= len(vals):
            return [ip.raise_('builtins.TypeError', st, site)]
        v = vals[n]
        n += 1
        if not spec and conv in 'sdi':
            if conv in 'di' and typeof(v) in ('str', 'bytes', 'NoneType', 'tuple'):
                return [ip.raise_('builtins.TypeError', st, site)]
            parts.append(to_str(ip, v, st))
        else:
            parts.append(S('fmtval', (v, spec + conv, -1), 'str'))
    if n < len(vals) and args[0] == 'T':
        return [ip.raise_('builtins.TypeError', st, site)]
    r = cat(parts, 'str')
    if byt:
        r = K(r[2].encode('latin1')) if r[0] == 'K' else S('fmt', (fmt, args), 'bytes')
    return [(True, r, st)]


def str_format(ip, fmt, args, kws, st, site):
    if fmt[0] != 'K':
        return [(True, S('fmt', (fmt,) + tuple(args), 'str'), st)]
    parts, auto = [], 0
    kw = dict((k, v) for k, v in kws if k)
    if any(a[0] == '*' for a in args):
        return [(True, ip.fresh('fmt', (fmt,), 'str', site), st)]
    try:
        toks = list(string.Formatter().parse(fmt[2]))
    except ValueError:
        return [ip.raise_('builtins.ValueError', st, site)]
    for lit, field, spec, conv in toks:
        if lit:
            parts.append(K(lit))
        if field is None:
            continue
        name, rest = field, ''
        for i, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            v = args[auto] if auto < len(args) else None
            auto += 1
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else None
        else:
            v = kw.get(name)
        if v is None:
            if any(k is None for k, _ in kws):
                parts.append(ip.fresh('fmtpart', (fmt,), 'str', site))
                continue
            return [ip.raise_('builtins.IndexError' if name == '' or name.isdigit() else 'builtins.KeyError', st, site)]
        bad = False
        while rest and not bad:
            if rest[0] == '.':
                j = min([k for k in (rest.find('.', 1), rest.find('[', 1)) if k > 0] or [len(rest)])
                at = rest[1:j]
                rest = rest[j:]
                rs = ip.getattr_(v, at, st.clone(), site)
                good = [x for x in rs if x[0]]
                if not good:
                    return [ip.raise_('builtins.AttributeError', st, site)]
                if len(rs) > 1 or not rs[0][0]:
                    v = S('attr', (v, at), None)
                else:
                    v = rs[0][1]
            else:
                j = rest.find(']')
                v = S('item', (v, K(rest[1:j])), None)
                rest = rest[j + 1:]
        if spec or (conv and conv != 's'):
            parts.append(S('fmtval', (v, spec or '', conv or ''), 'str'))
        else:
            parts.append(to_str(ip, v, st))
    return [(True, cat(parts, 'str'), st)]
