"""Models of builtins and of the libraries the code calls."""
import ast

from .values import *
from .core import *
from . import m_bytes as mb
from .m_bytes import content, forks, is_text, to_str, percent, str_format, cut, cut_or_slice, slice_text, parse_fmt, \
    pack, unpack, code_of
from .m_data import *
from .m_data import list_add, new_list


def ok(v, st):
    return [(True, v, st)]


def arg(args, kws, i, name, default=NONE):
    if i is not None and i < len(args) and args[i][0] != '*':
        return args[i]
    for k, v in kws:
        if k == name:
            return v
    return default


def ext_obj(ip, st, typ, site, **f):
    return ip.alloc(st, typ + '@' + site, HObj('ext', X(typ), f, {}))


def maybe(ip, st, site, dotted, result, detail=()):
    """result, or any exception of the class"""
    s2 = st.clone()
    e = ip.any_exc(dotted, detail)
    ip.mon.raised(ip, e, s2, site)
    s2.note('%s raises %s' % (site, dotted))
    return [(True, result, st), (False, e, s2)]


# ---------------------------------------------------------------- running something somewhere else

def call_in(ip, st, thread, fn):
    """run fn(st) as another thread or task: no locks held; -> its results"""
    old, oldc = ip.thread, ip.cancel
    st.tmp += (T(*st.locks),)
    st.locks = ()
    ip.thread, ip.cancel = thread or old, []
    try:
        res = fn(st)
    finally:
        ip.thread, ip.cancel = old, oldc
    out = []
    for o, v, s in res:
        s.locks = s.tmp[-1][1]
        s.tmp = s.tmp[:-1]
        out.append((o, v, s))
    return out


def stale(ip, f, st):
    """a function that runs later sees later values of the loop variables it refers to"""
    if f[0] == 'B':
        return ('B', f[1], stale(ip, f[2], st))
    if f[0] == 'D' and f[1] == 'partial':
        return f[:2] + (stale(ip, f[2], st),) + f[3:]
    if f[0] == 'CO':
        return ('CO', stale(ip, f[1], st)) + f[2:]
    if f[0] != 'F' or f[2] is None:
        return f
    fr = st.obj(f[2])
    if fr is None or fr.kind != 'frame' or f[2] not in st.stack:
        return f
    fi = ip.prog.fns.get(fr.m.get('fn'))
    if fi is None or not fi.multi:
        return f
    free = {x.id for x in ast.walk(ip.prog.fns[f[1]].node) if isinstance(x, ast.Name)}
    names = [n for n in fi.multi if n in fr.f and n in free and n not in ip.prog.fns[f[1]].locals]
    if not names:
        return f
    nf = dict(fr.f)
    for n in names:
        nf[n] = S('stale', (K(n), fr.f[n]), typeof(fr.f[n]))
    r = ip.alloc(st, 'stale:' + fi.fid, HObj('frame', None, nf, dict(fr.m)))
    return ('F', f[1], r) + f[3:]


def as_future(results, site):
    return [(True, ('FUT', 'ok' if o else 'exc', v, site), s) for o, v, s in results]


def spawn(ip, aw, st, how, site, thread=None):
    aw = stale(ip, aw, st)
    r = ip.mon.spawn(ip, aw, st, how, site)
    if r is not None:
        return r
    if aw[0] == 'FUT':
        return ok(aw, st)
    if aw[0] == 'CO':
        return as_future(call_in(ip, st, thread, lambda s: ip.run_coro(aw, s, site)), site)
    if aw[0] == 'AW':
        return as_future(call_in(ip, st, thread, lambda s: await_ext(ip, aw, s, site)), site)
    return ok(('FUT', 'ok', ip.fresh('spawned', (aw,), None, site), site), st)


def spawn_call(ip, f, args, kws, st, how, site, thread):
    """run f(*args) later or elsewhere -> futures"""
    f = stale(ip, f, st)
    r = ip.mon.spawn(ip, ('CALL', f, tuple(args), tuple(kws)), st, how, site)
    if r is not None:
        return r
    return as_future(call_in(ip, st, thread, lambda s: ip.call(f, list(args), list(kws), s, site)), site)


def cancel_forks(ip, st, site):
    """the current task may be cancelled at this suspension"""
    out = []
    for tag in ip.cancel:
        s2 = st.clone()
        e = ('XC', X('asyncio.CancelledError'), (), True, ('cancel', tag))
        s2.note('%s cancelled (%s)' % (site, tag))
        out.append((False, e, s2))
    return out


def await_ext(ip, v, st, site):
    t = v[0]
    out = []
    if t == 'CO':
        return ip.run_coro(v, st, site)
    name, args, kw = ('future', [v], ()) if t != 'AW' else (v[1], list(v[2]), v[3])
    if t == 'AW' and name == 'asyncio.wait_for':
        return await_wait_for(ip, args, kw, st, site)
    if t == 'AW' and name == 'asyncio.gather':
        return await_gather(ip, args, kw, st, site)
    st.tmp += (T(*args),)
    for s in ip.mon.suspend(ip, st, name, args, site):
        a = list(s.tmp[-1][1])
        s.tmp = s.tmp[:-1]
        out.extend(cancel_forks(ip, s, site))
        r = ip.mon.ext_call(ip, 'await:' + name, a, list(kw), s, site)
        if r is not None:
            out.extend(r)
            continue
        if t == 'FUT':
            fv = a[0]
            if fv[1] == 'ok':
                out.append((True, fv[2], s))
            else:
                out.append((False, fv[2], s))
            continue
        m = AWAIT.get(name)
        if m is not None:
            out.extend(m(ip, a, list(kw), s, site))
        else:
            if t == 'AW':
                ip.note('await of %s not modelled' % name)
            out.append((True, ip.fresh('awaited', (K(name),) + tuple(x for x in a if x[0] != '*'), None, site), s))
    return out


def await_wait_for(ip, args, kw, st, site):
    aw, tmo = args[0], arg(args, kw, 1, 'timeout')
    r = ip.mon.ext_call(ip, 'asyncio.wait_for!', [aw, tmo], [], st, site)
    if r is not None:
        return r
    out = []
    bounded = tmo != NONE
    if aw[0] in ('CO',):
        tag = 'wait_for ' + site
        st.tmp += (tmo,)
        if bounded:
            ip.cancel = ip.cancel + [tag]
        try:
            rs = ip.run_coro(aw, st, site)
        finally:
            if bounded:
                ip.cancel = ip.cancel[:-1]
        for o, v, s in rs:
            s.tmp = s.tmp[:-1]
            if not o and v[0] == 'XC' and v[4] == ('cancel', tag):
                r = ip.raise_('builtins.TimeoutError', s, site, ('wait_for', site))
                out.append(r)
            else:
                out.append((o, v, s))
        return out
    if bounded:
        s2 = st.clone()
        s2.tmp += (T(aw, tmo),)
        for s in ip.mon.suspend(ip, s2, 'asyncio.wait_for', [aw, tmo], site):
            s.tmp = s.tmp[:-1]
            out.append(ip.raise_('builtins.TimeoutError', s, site, ('wait_for', site)))
    out.extend(await_ext(ip, aw, st, site))
    return out


def await_gather(ip, args, kw, st, site):
    ret = arg([], kw, None, 'return_exceptions', FALSE)
    cur, out = [((), st)], []
    for i, a in enumerate(args):
        nxt = []
        for vals, s in cur:
            s.tmp += (T(*args), T(*vals))
            for o, v, s2 in await_ext(ip, s.tmp[-2][1][i], s, site):
                vals2 = s2.tmp[-1][1]
                s2.tmp = s2.tmp[:-2]
                if o or ret == TRUE:
                    nxt.append((vals2 + (v,), s2))
                else:
                    out.append((False, v, s2))
        cur = nxt
    for vals, s in cur:
        out.append((True, new_list(ip, s, site, vals), s))
    return out


# awaited effects: (ip, args, kws, st, site)

def aw_event_wait(ip, args, kws, st, site):
    ev = args[0]
    if ev[0] == 'O' and st.obj(ev) is not None:
        st.put(ev, st.obj(ev).set('%set', TRUE))
    return ok(TRUE, st)


def exact_read(ip, recv, n, st, site):
    base = ip.fresh('data', (recv,), 'bytes', site)
    return S('sl', (base, ZERO, n), 'bytes')


def aw_readexactly(ip, args, kws, st, site):
    s2 = st.clone()
    out = [(True, exact_read(ip, args[0], args[1], st, site), st),
           ip.raise_('asyncio.IncompleteReadError', s2, site)]
    s3 = st.clone()
    out.append((False, ip.any_exc('builtins.ConnectionError'), s3))
    return out


def aw_read(ip, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.ConnectionError', ip.fresh('data', (args[0],), 'bytes', site))


def aw_conn_error(ip, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.ConnectionError', NONE)


def aw_none(ip, args, kws, st, site):
    return ok(NONE, st)


def aw_open(ip, args, kws, st, site):
    r = ext_obj(ip, st, 'asyncio.StreamReader', site)
    w = ext_obj(ip, st, 'asyncio.StreamWriter', site)
    return maybe(ip, st, site, 'builtins.OSError', T(r, w))


def aw_server(ip, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.OSError', ext_obj(ip, st, 'asyncio.Server', site))


def aw_lock(ip, args, kws, st, site):
    lock = args[0]
    st.locks = st.locks + (lock,)
    ip.mon.acquire(ip, lock, st, site)
    return ok(TRUE, st)


def aw_to_thread(ip, args, kws, st, site):
    return call_in(ip, st, 'worker', lambda s: ip.call(args[0], args[1:], kws, s, site))


def aw_task_done(ip, args, kws, st, site):
    return ok(ip.fresh('awaited', tuple(args), None, site), st)


AWAIT = {
    'asyncio.sleep': aw_none, 'asyncio.Event.wait': aw_event_wait,
    'asyncio.StreamReader.readexactly': aw_readexactly, 'asyncio.StreamReader.read': aw_read,
    'asyncio.StreamReader.readline': aw_read, 'asyncio.StreamReader.readuntil': aw_read,
    'asyncio.StreamWriter.drain': aw_conn_error, 'asyncio.StreamWriter.wait_closed': aw_conn_error,
    'asyncio.open_connection': aw_open, 'asyncio.start_server': aw_server, 'asyncio.Lock.acquire': aw_lock,
    'asyncio.Server.wait_closed': aw_none, 'asyncio.to_thread': aw_to_thread, 'asyncio.wait': aw_task_done,
    'asyncio.Server.serve_forever': aw_none, 'asyncio.Server.start_serving': aw_none,
}

# methods whose result is an awaitable
ASYNC_METHODS = {
    ('asyncio.StreamReader', 'readexactly'), ('asyncio.StreamReader', 'read'), ('asyncio.StreamReader', 'readline'),
    ('asyncio.StreamReader', 'readuntil'), ('asyncio.StreamWriter', 'drain'), ('asyncio.StreamWriter', 'wait_closed'),
    ('asyncio.Event', 'wait'), ('asyncio.Lock', 'acquire'), ('asyncio.Server', 'wait_closed'),
    ('asyncio.Server', 'serve_forever'), ('asyncio.Server', 'start_serving'), ('asyncio.Semaphore', 'acquire'),
    ('asyncio.Queue', 'get'), ('asyncio.Queue', 'put'), ('asyncio.Condition', 'wait'), ('asyncio.Queue', 'join'),
    ('asyncio.Loop', 'shutdown_asyncgens'), ('asyncio.Loop', 'create_connection'), ('asyncio.Loop', 'create_server'),
    ('asyncio.Loop', 'sock_recv'), ('asyncio.Loop', 'sock_sendall'), ('asyncio.Loop', 'getaddrinfo'),
}
ASYNC_FUNCS = {'asyncio.sleep', 'asyncio.open_connection', 'asyncio.start_server', 'asyncio.wait_for', 'asyncio.gather',
               'asyncio.to_thread', 'asyncio.wait'}


# ---------------------------------------------------------------- text methods

PURE_STR = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'find', 'rfind', 'index',
            'isdigit', 'isalpha', 'zfill', 'ljust', 'rjust', 'center', 'count', 'endswith', 'startswith', 'split', 'rsplit',
            'partition', 'rpartition', 'encode', 'decode', 'hex', 'removeprefix', 'removesuffix', 'splitlines', 'casefold',
            'isspace', 'isnumeric', 'isdecimal', 'isalnum', 'swapcase', 'expandtabs', 'islower', 'isupper', 'rindex'}


def conv_const(ip, x, st, site):
    if isinstance(x, list):
        return new_list(ip, st, site, [K(i) for i in x])
    if isinstance(x, tuple):
        return T(*[K(i) for i in x])
    return K(x)


def text_method(ip, v, name, args, kws, st, site):
    typ = typeof(v)
    if name == 'format' and typ == 'str':
        return str_format(ip, v, args, kws, st, site)
    if name == 'join':
        return text_join(ip, v, args[0], st, site)
    if name in ('tobytes', '__bytes__'):
        return ok(v, st)
    if name == '__len__':
        return ok(lin_val(ip.length_of(v, st)), st)
    ca = [const(a) for a in args]
    ck = [(k, const(x)) for k, x in kws]
    if v[0] == 'K' and all(c[0] for c in ca) and all(c[0] for _, c in ck) and name in PURE_STR:
        try:
            r = getattr(v[2], name)(*[c[1] for c in ca], **{k: c[1] for k, c in ck})
            return ok(conv_const(ip, r, st, site), st)
        except Exception as e:
            return [ip.raise_('builtins.' + type(e).__name__, st, site)]
    if name == 'encode' and typ == 'str':
        cod = arg(args, kws, 0, 'encoding', K('utf-8'))
        cod = norm_codec(cod)
        err = arg(args, kws, 1, 'errors', K('strict'))
        if v[0] == 'S' and v[1] == 'dec' and v[2][1] == cod:
            return ok(v[2][0], st)
        if v[0] == 'S' and v[1] == 'cat':
            parts, cur = [], [((), st)]
            out = []
            for p in v[2]:
                nxt = []
                for acc, s in cur:
                    for o, x, s2 in text_method(ip, p, name, args, kws, s, site):
                        if o:
                            nxt.append((acc + (x,), s2))
                        else:
                            out.append((o, x, s2))
                cur = nxt
            return out + [(True, cat(acc, 'bytes'), s) for acc, s in cur]
        e = S('enc', (v, cod) if err == K('strict') else (v, cod, err), 'bytes')
        known = v[1] in ('str', 'dec') or (is_k(cod) and ('encodable', v) in st.facts)
        if known or err != K('strict') or not ip.text_errors:
            return ok(e, st)
        s2 = st.clone()
        return [(True, e, st), ip.raise_('builtins.UnicodeEncodeError', s2, site)]
    if name == 'decode' and typ == 'bytes':
        cod = norm_codec(arg(args, kws, 0, 'encoding', K('utf-8')))
        err = arg(args, kws, 1, 'errors', K('strict'))
        if v[0] == 'S' and v[1] == 'enc' and v[2][1:] == (cod,):
            return ok(v[2][0], st)
        e = S('dec', (v, cod) if err == K('strict') else (v, cod, err), 'str')
        if err != K('strict') or cod == K('latin-1'):
            return ok(e, st)
        s2 = st.clone()
        out = [(True, e, st)]
        out.append(ip.raise_('builtins.UnicodeDecodeError', s2, site))
        if not is_k(cod):
            s3 = st.clone()
            out.append(ip.raise_('builtins.LookupError', s3, site))
        return out
    if name == 'startswith':
        p = args[0]
        if p[0] == 'T':
            return [(True, b, s) for b, s in any_of(ip, [lambda s, x=x: text_method(ip, v, name, [x], [], s, site) for x in p[1]], st)]
        if is_k(p) and len(p[2]) == 0:
            return ok(TRUE, st)
        if v[0] == 'S' and v[1] == 'cat' and v[2][0][0] == 'K' and is_k(p):
            h = v[2][0][2]
            if h.startswith(p[2]):
                return ok(TRUE, st)
            if not p[2].startswith(h):
                return ok(FALSE, st)
        if v[0] == 'S' and v[1] == 'cat' and v[2][0] == p:
            return ok(TRUE, st)
        return ok(ip.fact(('startswith', v, p)), st)
    if name == 'endswith':
        return ok(ip.fact(('endswith', v, args[0])), st)
    if name in ('removeprefix',) and is_k(args[0]):
        out = []
        for o, c, s in text_method(ip, v, 'startswith', args, [], st, site):
            for b, s2 in ip.test(c, s):
                if b:
                    r = strip_prefix(ip, v, args[0])
                    out.append((True, r, s2))
                else:
                    out.append((True, v, s2))
        return out
    if name in ('split', 'partition') and v[0] == 'S' and v[1] == 'cat' and v[2][0][0] == 'K' and args and is_k(args[0]):
        sep, head = args[0][2], v[2][0][2]
        mx = arg(args, kws, 1, 'maxsplit', K(-1))
        if sep and sep in head and (name == 'partition' or mx == ONE):
            a, _, rest = head.partition(sep)
            tail = cat([K(rest)] + list(v[2][1:]), typ)
            if name == 'partition':
                return ok(T(K(a), args[0], tail), st)
            return ok(new_list(ip, st, site, [K(a), tail]), st)
    if name == 'partition':
        out = []
        for b, s in forks(ip, (('in', args[0], v), True), st):
            if b:
                out.append((True, T(S('item', (S('split', (v, args[0], ONE), None), ZERO), typ), args[0],
                                    S('item', (S('split', (v, args[0], ONE), None), ONE), typ)), s))
            else:
                out.append((True, T(v, K('' if typ == 'str' else b''), K('' if typ == 'str' else b'')), s))
        return out
    if name in ('split', 'rsplit'):
        sep = arg(args, kws, 0, 'sep', NONE)
        return ok(S('split', (v, sep, arg(args, kws, 1, 'maxsplit', K(-1))), 'list[str]'), st)
    if name == '__contains__':
        return contains(ip, args[0], v, st, site)
    if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'zfill', 'ljust', 'rjust',
                'removesuffix', 'removeprefix', 'center', 'casefold'):
        return ok(S('strop', (K(name), v) + tuple(args), typ), st)
    if name in ('find', 'rfind', 'count'):
        return ok(S('strop', (K(name), v) + tuple(args), 'int'), st)
    if name in ('index', 'rindex'):
        return maybe(ip, st, site, 'builtins.ValueError', S('strop', (K(name), v) + tuple(args), 'int'))
    if name.startswith('is'):
        return ok(ip.fact((name, v)), st)
    if name == 'hex':
        return ok(S('strop', (K(name), v), 'str'), st)
    return ok(ip.fresh('strop', (K(name), v) + tuple(a for a in args if a[0] != '*'), None, site), st)


def any_of(ip, fns, st):
    cur, out = [st], []
    for fn in fns:
        nxt = []
        for s in cur:
            for o, v, s2 in fn(s):
                for b, s3 in ip.test(v, s2):
                    if b:
                        out.append((TRUE, s3))
                    else:
                        nxt.append(s3)
        cur = nxt
    return out + [(FALSE, s) for s in cur]


def strip_prefix(ip, v, p):
    if v[0] == 'S' and v[1] == 'cat' and v[2][0][0] == 'K' and v[2][0][2].startswith(p[2]):
        return cat([K(v[2][0][2][len(p[2]):])] + list(v[2][1:]), typeof(v))
    return S('sl', (v, K(len(p[2])), None), typeof(v))


def norm_codec(c):
    if is_k(c, str):
        n = c[2].lower().replace('_', '-')
        return K({'utf8': 'utf-8', 'utf-8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(n, n))
    return c


def text_join(ip, sep, it, st, site):
    typ = typeof(sep)
    o = st.obj(it) if it[0] == 'O' else None
    if o is not None and o.kind == 'list' and o.m.get('cat') is not None and is_k(sep) and not sep[2] and typeof(o.m['cat']) == typ:
        return ok(o.m['cat'], st)
    sp = ip.iterate(it, st, site)
    if sp[0] == 'known':
        parts = []
        for i, x in enumerate(sp[1]):
            x = content(x, st)
            if typeof(x) not in (typ, None):
                return [ip.raise_('builtins.TypeError', st, site)]
            if i:
                parts.append(sep)
            parts.append(x)
        return ok(cat(parts, typ), st)
    if sp[0] == 'raise':
        return [(False, sp[1], sp[2])]
    if sp[0] == 'gen':
        out = []
        for k, l, s in collect(ip, sp[1], st, site, 'list'):
            out.extend(text_join(ip, sep, l, s, site) if k else [(False, l, s)])
        return out
    els = [v for v, s in ip.elements(it, st.clone(), site)]
    if it[0] == 'S' and it[1] == 'lazy':
        return ok(ip.fresh('join', (sep, T(*els)), typ, site), st)
    return ok(ip.fresh('join', (sep, T(*els)), typ, site), st)


# ---------------------------------------------------------------- builtins

def b_len(ip, args, kws, st, site):
    v = args[0]
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and isinstance(o.cls, tuple) and o.kind != 'ext':
            r = ip.cls_lookup(o.cls, '__len__', st)
            if r:
                return ip.call(('B', v, r[0]), [], [], st, site)
        if o is not None and o.kind in ('dict', 'list', 'set'):
            ip.mon.dict_event(ip, 'len', v, None, None, st, site)
        if o is not None and o.kind == 'inst' and not o.m.get('nt'):
            return [ip.raise_('builtins.TypeError', st, site)]
        if o is not None and o.m.get('nt'):
            return ok(K(len(o.m['nt'])), st)
    v = content(v, st)
    if v == NONE or is_k(v, int, float, bool):
        return [ip.raise_('builtins.TypeError', st, site)]
    if v[0] == 'S' and v[1] == 'view':
        return b_len(ip, [v[2][0]], kws, st, site)
    l = ip.length_of(v, st)
    return ok(lin_val(l), st)


def b_str(ip, args, kws, st, site):
    if not args:
        return ok(K(''), st)
    v = args[0]
    if len(args) > 1 or kws:
        return text_method(ip, content(v, st), 'decode', args[1:], kws, st, site)
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and isinstance(o.cls, tuple) and o.kind == 'inst':
            r = ip.cls_lookup(o.cls, '__str__', st) or ip.cls_lookup(o.cls, '__repr__', st)
            if r:
                return ip.call(('B', v, r[0]), [], [], st, site)
    return ok(to_str(ip, v, st), st)


def b_int(ip, args, kws, st, site):
    if not args:
        return ok(ZERO, st)
    v = content(args[0], st)
    c, x = const(v)
    if c and len(args) == 1:
        try:
            return ok(K(int(x)), st)
        except (ValueError, TypeError, OverflowError) as e:
            return [ip.raise_('builtins.' + type(e).__name__, st, site)]
    ty = typeof(v)
    if ty in ('int',):
        return ok(v, st)
    if v[0] == 'S' and v[1] == 'enum':
        return ok(v[2][1], st)
    if ty in ('str', 'bytes'):
        return maybe_exact(ip, st, site, 'builtins.ValueError', S('int', (v,) + tuple(args[1:]), 'int'))
    if ty == 'bool':
        return ok(S('int', (v,), 'int'), st)
    if ty in ('tuple', 'NoneType', 'function') or v[0] == 'O':
        return [ip.raise_('builtins.TypeError', st, site)]
    return ok(S('int', (v,), 'int'), st)


def maybe_exact(ip, st, site, dotted, result):
    s2 = st.clone()
    return [(True, result, st), ip.raise_(dotted, s2, site)]


def b_float(ip, args, kws, st, site):
    v = args[0] if args else ZERO
    c, x = const(v)
    if c:
        try:
            return ok(K(float(x)), st)
        except (ValueError, TypeError) as e:
            return [ip.raise_('builtins.' + type(e).__name__, st, site)]
    if lin_of(v) is not None and typeof(v) in ('int', 'float', None):
        return ok(v, st)
    return maybe_exact(ip, st, site, 'builtins.ValueError', S('float', (v,), 'float'))


def b_bool(ip, args, kws, st, site):
    if not args:
        return ok(FALSE, st)
    args = [content(args[0], st)]
    if args[0][0] == 'O':
        o = st.obj(args[0])
        if o is not None and o.kind == 'inst' and isinstance(o.cls, tuple):
            for name in ('__bool__', '__len__'):
                r = ip.cls_lookup(o.cls, name, st)
                if r:
                    return [(True, K(b), s2) for k, x, s in ip.call(('B', args[0], r[0]), [], [], st, site) if k for b, s2 in ip.test(x, s)]
        if o is not None and o.kind in ('dict', 'list', 'set'):
            ip.mon.dict_event(ip, 'len', args[0], None, None, st, site)
    r = ip.cond_key(args[0], st)
    return ok(ip.boolval(r), st)


def b_bytes(ip, args, kws, st, site):
    if not args:
        return ok(K(b''), st)
    v = content(args[0], st)
    if typeof(v) == 'bytes':
        return ok(v, st)
    if len(args) > 1 or (typeof(v) == 'str' and kws):
        return text_method(ip, v, 'encode', args[1:], kws, st, site)
    if typeof(v) == 'str':
        return [ip.raise_('builtins.TypeError', st, site)]
    c, x = const(v)
    if c and isinstance(x, int) and 0 <= x < 4096:
        return ok(K(bytes(x)), st)
    if v == NONE:
        return [ip.raise_('builtins.TypeError', st, site)]
    return ok(S('bytes', (v,), 'bytes'), st)


def b_bytearray(ip, args, kws, st, site):
    out = []
    for o, v, s in b_bytes(ip, args, kws, st, site):
        out.append((o, ext_obj(ip, s, 'bytearray', site, **{'.v': v}) if o else v, s))
    return out


def b_memoryview(ip, args, kws, st, site):
    v = content(args[0], st)
    if typeof(v) == 'str' or v[0] == 'K' and not isinstance(v[2], bytes):
        return [ip.raise_('builtins.TypeError', st, site)]
    return ok(v, st)


def b_isinstance(ip, args, kws, st, site):
    c = args[1]
    if c[0] == 'O' and st.obj(c) is not None and st.obj(c).kind == 'list':
        return [ip.raise_('builtins.TypeError', st, site)]
    r = ip.isinstance_(args[0], c, st)
    if r is None:
        return ok(ip.fact(('isinst', args[0], c)), st)
    return ok(K(r), st)


def b_issubclass(ip, args, kws, st, site):
    if args[0][0] in ('O', 'X'):
        cs = args[1][1] if args[1][0] == 'T' else (args[1],)
        return ok(K(any(ip.is_sub(args[0], c, st) for c in cs)), st)
    return ok(ip.fact(('issub', args[0], args[1])), st)


def b_callable(ip, args, kws, st, site):
    v = args[0]
    if v[0] in ('F', 'B', 'M', 'X', 'D'):
        return ok(TRUE, st)
    if v[0] in ('K', 'T', 'E'):
        return ok(FALSE, st)
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None:
            if o.kind == 'class':
                return ok(TRUE, st)
            if isinstance(o.cls, tuple):
                return ok(K(bool(ip.cls_lookup(o.cls, '__call__', st))), st)
    if typeof(v) in ('int', 'float', 'str', 'bytes', 'bool'):
        return ok(FALSE, st)
    return ok(ip.fact(('callable', v)), st)


def b_getattr(ip, args, kws, st, site):
    o, n = args[0], args[1]
    out = []
    if is_k(n, str):
        rs = ip.getattr_(o, n[2], st, site)
    elif o[0] == 'O' and st.obj(o) is not None and st.obj(o).kind in ('inst', 'class', 'module'):
        # a computed name: every attribute it may name, or none
        obj = st.obj(o)
        cands = set()
        if obj.kind == 'inst':
            cands |= set(obj.f)
            for c in ip.mro(obj.cls, st):
                if c[0] == 'O':
                    cands |= set(st.obj(c).f)
        else:
            cands |= set(obj.f)
        rs = []
        for c in sorted(cands):
            k = ip.eq_key(n, K(c))
            if k is False:
                continue
            s2 = st.clone()
            if k is not True:
                kn = ip.know(k[0], s2)
                if kn is not None and kn != k[1]:
                    continue
                s2.facts[k[0]] = k[1]
            rs.extend(ip.getattr_(o, c, s2, site))
        rs.append(ip.raise_('builtins.AttributeError', st, site))
    elif o[0] == 'S' and typeof(o) is None or o[0] == 'X':
        v = S('attr', (o, n), None)
        if len(args) > 2:
            s2 = st.clone()
            return [(True, v, st), (True, args[2], s2)]
        rs = maybe_exact(ip, st, site, 'builtins.AttributeError', v)
    else:
        rs = maybe_exact(ip, st, site, 'builtins.AttributeError', S('attr', (o, n), None))
    if len(args) < 3:
        return rs
    for okk, v, s in rs:
        if not okk and v[0] == 'XC' and v[1] == X('builtins.AttributeError'):
            out.append((True, args[2], s))
        else:
            out.append((okk, v, s))
    return out


def b_hasattr(ip, args, kws, st, site):
    o = args[0]
    if o[0] == 'S' and typeof(o) is None:
        return ok(ip.fact(('hasattr', o, args[1])), st)
    if o[0] == 'S' or (o[0] == 'O' and st.obj(o) is not None and st.obj(o).kind == 'ext'):
        ty = ip.ext_type(o, st)
        rc = real_class(ty if ty and '.' in ty else 'builtins.%s' % ty) if ty else None
        if rc is not None and is_k(args[1]):
            return ok(K(hasattr(rc, args[1][2])), st)
        return ok(ip.fact(('hasattr', o, args[1])), st)
    out = []
    for okk, v, s in b_getattr(ip, args[:2], [], st, site):
        if okk:
            out.append((True, TRUE, s))
        elif v[0] == 'XC' and v[1] == X('builtins.AttributeError'):
            out.append((True, FALSE, s))
        else:
            out.append((okk, v, s))
    return out


def b_setattr(ip, args, kws, st, site):
    o, n, v = args
    if is_k(n, str):
        return [(okk, NONE if okk else x, s) for okk, x, s in ip.setattr_(o, n[2], v, st, site)]
    if o[0] == 'O':
        obj = st.obj(o)
        st.put(o, obj.meta(dyn=tuple(x for x in obj.m.get('dyn', ()) if x[0] != n) + ((n, v),)))
    return ok(NONE, st)


def b_delattr(ip, args, kws, st, site):
    if args[0][0] == 'O' and is_k(args[1], str):
        st.put(args[0], st.obj(args[0]).delete(args[1][2]))
    return ok(NONE, st)


def seq_of(ip, v, st, site):
    """('known', tuple) or ('gen', frozenset, open)"""
    sp = ip.iterate(v, st, site)
    return sp


def b_list(kind):
    def f(ip, args, kws, st, site):
        if not args:
            return ok(T() if kind == 'tuple' else new_list(ip, st, site, (), kind), st)
        v = content(args[0], st)
        if v[0] == 'S' and v[1] == 'view':
            ip.mon.dict_event(ip, 'iter', v[2][0], None, None, st, site)
        if v[0] == 'GEN':
            return collect(ip, v, st, site, kind)
        sp = ip.iterate(v, st, site)
        if sp[0] == 'raise':
            return [(False, sp[1], sp[2])]
        if sp[0] == 'known':
            if kind == 'tuple':
                return ok(T(*sp[1]), st)
            l = new_list(ip, st, site, () if kind == 'set' else sp[1], kind)
            if kind == 'set':
                for x in sp[1]:
                    list_add(ip, l, x, st)
            return ok(l, st)
        if sp[0] == 'gen':
            return collect(ip, sp[1], st, site, kind)
        if kind == 'tuple':
            return ok(S('tupleof', (v,), 'tuple'), st)
        m = {'items': None}
        if v[0] == 'S' and v[1] == 'lazy' and v[2][0] == 'map' and ip.iterate(v[2][2], st, site)[0] != 'known':
            els = ip.elements(v, st.clone(), site)
            m['gen'] = frozenset((x, frozenset()) for x, _ in els)
            m['mapof'] = v[2][2]
        elif v[0] == 'O' or (v[0] == 'S' and v[1] == 'view'):
            d = v if v[0] == 'O' else v[2][0]
            o = st.obj(d)
            if o is not None and o.kind == 'dict':
                what = 'keys' if v[0] == 'O' else v[2][1]
                els = []
                for k, x in o.m.get('items') or ():
                    els.append(ip.view_elem(what, k, x))
                for k, x, _ in o.m.get('gen') or ():
                    els.append(ip.view_elem(what, k, x))
                m['gen'] = frozenset((x, frozenset()) for x in els)
                if o.m.get('open'):
                    m['snapshot'] = T(d, K(what))
                    m['open'] = True
            elif o is not None:
                m['gen'] = frozenset(o.m.get('gen') or ()) | frozenset((x, frozenset()) for x in o.m.get('items') or ())
                m['open'] = bool(o.m.get('open'))
        else:
            m['open'] = True
            m['src'] = v
        return ok(ip.alloc(st, kind + '@' + site, HObj(kind, kind, {}, m)), st)
    return f


def collect(ip, gen, st, site, kind):
    """list(generator())"""
    l = new_list(ip, st, site, (), 'list')
    st.tmp += (l,)

    def handler(v, s):
        # the list is a root of this state
        ref = [x for x in s.tmp if x[0] == 'O' and str(x[1][0]).startswith('list@' + site)][-1]
        list_add(ip, ref, v, s)
        return [('send', NONE, s)]
    out = []
    for o, v, s in ip.run_gen(gen, handler, st, site):
        ref = s.tmp[-1]
        s.tmp = s.tmp[:-1]
        if o:
            lo = s.obj(ref)
            if kind == 'tuple' and lo.m.get('items') is not None:
                out.append((True, T(*lo.m['items']), s))
            else:
                out.append((True, ref, s))
        else:
            out.append((o, v, s))
    return out


def b_dict(ip, args, kws, st, site):
    return dict_new(ip, st, site, args, kws)


def b_zip(ip, args, kws, st, site):
    seqs = [ip.iterate(content(a, st), st, site) for a in args]
    if seqs and all(s[0] == 'known' for s in seqs):
        return ok(T(*[T(*x) for x in zip(*[s[1] for s in seqs])]), st)
    # an endless iterator paired with known ones
    return ok(S('lazy', ('zip', tuple(args)), None), st)


def b_map(ip, args, kws, st, site):
    if len(args) == 2:
        sp = ip.iterate(content(args[1], st), st, site)
        if sp[0] == 'known':
            return run_each(ip, args[0], [[x] for x in sp[1]], st, site)
        return ok(S('lazy', ('map', args[0], args[1]), None), st)
    z = b_zip(ip, args[1:], [], st, site)[0][1]
    if z[0] == 'T':
        return run_each(ip, args[0], [list(x[1]) for x in z[1]], st, site)
    return ok(S('lazy', ('map', ('D', 'star', args[0]), z), None), st)


def run_each(ip, f, argss, st, site):
    cur, out = [((), st)], []
    flat = T(f, *[T(*a) for a in argss])
    for i in range(len(argss)):
        nxt = []
        for vals, s in cur:
            s.tmp += (flat, T(*vals))
            fl = s.tmp[-2]
            old = ip.push_ctx('%s#%d' % (site, i)) if i else None
            done = ip.call(fl[1][0], list(fl[1][i + 1][1]), [], s, site)
            if old:
                ip.pop_ctx(old)
            for o, v, s2 in done:
                vals2 = s2.tmp[-1][1]
                s2.tmp = s2.tmp[:-2]
                if o:
                    nxt.append((vals2 + (v,), s2))
                else:
                    out.append((o, v, s2))
        cur = nxt
    return out + [(True, T(*vals), s) for vals, s in cur]


def b_filter(ip, args, kws, st, site):
    sp = ip.iterate(args[1], st, site)
    if sp[0] != 'known':
        return ok(S('lazy', ('filter', args[0], args[1]), None), st)
    out = []
    rs = run_each(ip, args[0], [[x] for x in sp[1]], st, site) if args[0] != NONE else ok(T(*sp[1]), st)
    for o, v, s in rs:
        if not o:
            out.append((o, v, s))
            continue
        cur = [((), s)]
        for x, c in zip(sp[1], v[1]):
            nxt = []
            for acc, s2 in cur:
                for b, s3 in ip.test(c, s2):
                    nxt.append((acc + (x,) if b else acc, s3))
            cur = nxt
        out.extend((True, T(*acc), s2) for acc, s2 in cur)
    return out


def b_enumerate(ip, args, kws, st, site):
    sp = ip.iterate(args[0], st, site)
    start = arg(args, kws, 1, 'start', ZERO)
    if sp[0] == 'known' and is_k(start):
        return ok(T(*[T(K(i + start[2]), x) for i, x in enumerate(sp[1])]), st)
    return ok(S('lazy', ('enumerate', args[0]), None), st)


def b_range(ip, args, kws, st, site):
    cs = [const(a) for a in args]
    if all(c[0] for c in cs):
        try:
            return ok(K(range(*[c[1] for c in cs])), st)
        except TypeError:
            return [ip.raise_('builtins.TypeError', st, site)]
    return ok(S('lazy', ('range', T(*args)), None), st)


def b_reversed(ip, args, kws, st, site):
    sp = ip.iterate(args[0], st, site)
    if sp[0] == 'known':
        return ok(T(*sp[1][::-1]), st)
    return ok(S('lazy', ('reversed', args[0]), None), st)


def b_sorted(ip, args, kws, st, site):
    sp = ip.iterate(args[0], st, site)
    if sp[0] == 'known':
        cs = [const(x) for x in sp[1]]
        if all(c[0] for c in cs) and not kws:
            try:
                return ok(new_list(ip, st, site, [K(x) for x in sorted(c[1] for c in cs)]), st)
            except TypeError:
                return [ip.raise_('builtins.TypeError', st, site)]
        return ok(new_list(ip, st, site, sp[1]), st)
    return b_list('list')(ip, args[:1], [], st, site)


def b_iter(ip, args, kws, st, site):
    if len(args) == 2:
        return ok(S('lazy', ('calliter', args[0], args[1]), None), st)
    v = args[0]
    sp = ip.iterate(v, st, site)
    if sp[0] == 'known':
        return ok(ext_obj(ip, st, 'iterator', site, items=T(*sp[1]), pos=ZERO), st)
    if sp[0] == 'gen':
        return ok(sp[1], st)
    if v[0] == 'S' and v[1] == 'lazy':
        return ok(v, st)
    return ok(S('lazy', ('iter', v), None), st)


def b_next(ip, args, kws, st, site):
    v = args[0]
    r = next_of(ip, v, st, site)
    if len(args) < 2:
        return r
    out = []
    for o, x, s in r:
        if not o and x[0] == 'XC' and x[1] == X('builtins.StopIteration'):
            out.append((True, args[1], s))
        else:
            out.append((o, x, s))
    return out


def next_of(ip, v, st, site):
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and o.kind == 'ext' and o.cls[1] == 'iterator':
            p = o.f['pos'][2]
            if p >= len(o.f['items'][1]):
                return [ip.raise_('builtins.StopIteration', st, site)]
            st.put(v, o.set('pos', K(p + 1)))
            return ok(o.f['items'][1][p], st)
        if o is not None and isinstance(o.cls, tuple) and o.kind == 'inst':
            r = ip.cls_lookup(o.cls, '__next__', st)
            if r:
                return ip.call(('B', v, r[0]), [], [], st, site)
    if v[0] == 'S' and v[1] == 'lazy':
        k = v[2][0]
        if k == 'count':
            return ok(ip.fresh('next', (v,), 'int', site), st)
        if k == 'map':
            out = []
            st.tmp += (v,)
            for o, x, s in next_of(ip, v[2][2], st, site):
                vv = s.tmp[-1]
                s.tmp = s.tmp[:-1]
                if o:
                    out.extend(ip.call(vv[2][1], [x], [], s, site))
                else:
                    out.append((o, x, s))
            return out
        if k == 'cycle':
            inner = v[2][1]
            et = 'int' if is_k(inner) and isinstance(inner[2], range) or (inner[0] == 'S' and inner[1] == 'lazy' and inner[2][0] == 'range') else None
            return ok(ip.fresh('next', (v,), et, site), st)
    if v[0] == 'GEN':
        f = ip.prog.fns.get(v[1][1]) if v[1][0] == 'F' else None
        return ok(ip.fresh('next', (('S', 'gen', (K(v[1][1]),), None, 0),), None, site), st)
    if v[0] == 'K' or v[0] == 'T':
        return [ip.raise_('builtins.TypeError', st, site)]
    s2 = st.clone()
    return [(True, ip.fresh('next', (v,), None, site), st), ip.raise_('builtins.StopIteration', s2, site)]


def b_anyall(is_any):
    def f(ip, args, kws, st, site):
        sp = ip.iterate(args[0], st, site)
        if sp[0] == 'known':
            out, cur = [], [st]
            for x in sp[1]:
                nxt = []
                for s in cur:
                    for b, s2 in ip.test(x, s):
                        if b == is_any:
                            out.append((True, K(is_any), s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(True, K(not is_any), s) for s in cur]
        return ok(ip.fact(('any' if is_any else 'all', args[0])), st)
    return f


def b_sum(ip, args, kws, st, site):
    sp = ip.iterate(args[0], st, site)
    start = arg(args, kws, 1, 'start', ZERO)
    if sp[0] == 'known':
        cur = [(True, start, st)]
        for x in sp[1]:
            cur = ip.bind(cur, lambda v, s, x=x: binop(ip, 'Add', v, x, s, site))
        return cur
    return ok(S('sum', (args[0],), 'int'), st)


def b_minmax(is_min):
    def f(ip, args, kws, st, site):
        if len(args) == 1:
            sp = ip.iterate(args[0], st, site)
            if sp[0] != 'known' or kws:
                return ok(ip.fresh('minmax', (args[0],), 'int', site), st)
            args = sp[1]
        if not args:
            return [ip.raise_('builtins.ValueError', st, site)]
        cur = [(True, args[0], st)]
        for x in args[1:]:
            nxt = []
            for o, v, s in cur:
                for o2, c, s2 in compare(ip, 'Lt' if is_min else 'Gt', x, v, s, site):
                    if not o2:
                        nxt.append((o2, c, s2))
                        continue
                    for b, s3 in ip.test(c, s2):
                        nxt.append((True, x if b else v, s3))
            cur = nxt
        return cur
    return f


def b_abs(ip, args, kws, st, site):
    c, x = const(args[0])
    return ok(K(abs(x)) if c else S('abs', (args[0],), typeof(args[0])), st)


def b_round(ip, args, kws, st, site):
    c, x = const(args[0])
    if c and len(args) == 1:
        return ok(K(round(x)), st)
    if typeof(args[0]) == 'int' and len(args) == 1:
        return ok(args[0], st)
    return ok(S('round', tuple(args), 'int' if len(args) == 1 else 'float'), st)


def b_type(ip, args, kws, st, site):
    if len(args) == 1:
        c = ip.class_of(args[0], st)
        return ok(c if c is not None else S('type', (args[0],), None), st)
    name, bases, ns = args[:3]
    items = dict_content(ip, ns, st)
    bs = list(bases[1]) if bases[0] == 'T' else []
    f = {k[2]: v for k, v in (items[0] if items else ()) if is_k(k, str)}
    nm = name[2] if is_k(name, str) else '?'
    ref = ip.alloc(st, 'class:%s@%s' % (nm, site), HObj('class', None, f, {'bases': tuple(b for b in bs if b != X('builtins.object')), 'name': nm, 'qual': nm, 'mod': ''}))
    return ok(ref, st)


def b_super(ip, args, kws, st, site):
    return ok(('SUP', args[0], args[1], False), st)


def b_property(ip, args, kws, st, site):
    return ok(('D', 'prop', arg(args, kws, 0, 'fget'), arg(args, kws, 1, 'fset', None)), st)


def b_object(ip, args, kws, st, site):
    return ok(ip.alloc(st, 'object@' + site, HObj('inst', X('builtins.object'), {}, {})), st)


def b_none(ip, args, kws, st, site):
    return ok(NONE, st)


def b_ord(ip, args, kws, st, site):
    c, x = const(args[0])
    try:
        return ok(K(ord(x)) if c else S('ord', (args[0],), 'int'), st)
    except TypeError:
        return [ip.raise_('builtins.TypeError', st, site)]


def b_vars(ip, args, kws, st, site):
    return ok(inst_dict(ip, args[0], st, site), st)


def b_divmod(ip, args, kws, st, site):
    return ok(T(S('op', ('FloorDiv', args[0], args[1]), 'int'), S('op', ('Mod', args[0], args[1]), 'int')), st)


def b_isfile(ip, args, kws, st, site):
    return ok(ip.fresh('call', tuple(args), None, site), st)


def b_format(ip, args, kws, st, site):
    return ok(S('fmtval', tuple(args), 'str'), st)


def b_frombytes(ip, args, kws, st, site):
    v = content(args[0], st)
    order = arg(args, kws, 1, 'byteorder', K('big'))
    signed = arg(args, kws, None, 'signed', FALSE)
    n = ip.length_of(v, st)
    c = lin_const(n) if n is not None else None
    if is_k(order) and is_k(signed) and c in (1, 2, 4, 8):
        return ok(mb.read_num(ip, v, {}, ('int', '>' if order[2] == 'big' or c == 1 else '<', code_of(int(c), bool(signed[2])), K(int(c))), st), st)
    if v[0] == 'K' and is_k(order):
        return ok(K(int.from_bytes(v[2], order[2], signed=bool(signed[2]))), st)
    return ok(S('frombytes', (v, order, signed), 'int'), st)


def int_method(ip, v, name, args, kws, st, site):
    if name == 'to_bytes':
        n = arg(args, kws, 0, 'length', ONE)
        order = arg(args, kws, 1, 'byteorder', K('big'))
        signed = arg(args, kws, None, 'signed', FALSE)
        c, size = const(n)
        if c and size in (1, 2, 4, 8) and is_k(order) and is_k(signed):
            f = mb.Fmt()
            f.items.append(('int', '>' if order[2] == 'big' or size == 1 else '<', code_of(size, bool(signed[2])), K(size)))
            out = []
            for o, x, s in pack(ip, f, [v], st, site):
                if not o:
                    x = ip.exc('builtins.OverflowError')
                out.append((o, x, s))
            return out
        return maybe(ip, st, site, 'builtins.OverflowError', S('tobytes', (v, n, order, signed), 'bytes'))
    if name == 'bit_length':
        return ok(S('bits', (v,), 'int'), st)
    return ok(ip.fresh('intop', (K(name), v), None, site), st)


BUILTINS = {
    'len': b_len, 'str': b_str, 'int': b_int, 'float': b_float, 'bool': b_bool, 'bytes': b_bytes, 'bytearray': b_bytearray,
    'memoryview': b_memoryview, 'isinstance': b_isinstance, 'issubclass': b_issubclass, 'callable': b_callable,
    'getattr': b_getattr, 'hasattr': b_hasattr, 'setattr': b_setattr, 'delattr': b_delattr, 'list': b_list('list'),
    'tuple': b_list('tuple'), 'set': b_list('set'), 'frozenset': b_list('set'), 'dict': b_dict, 'zip': b_zip, 'map': b_map,
    'filter': b_filter, 'enumerate': b_enumerate, 'range': b_range, 'reversed': b_reversed, 'sorted': b_sorted,
    'iter': b_iter, 'next': b_next, 'any': b_anyall(True), 'all': b_anyall(False), 'sum': b_sum, 'min': b_minmax(True),
    'max': b_minmax(False), 'abs': b_abs, 'round': b_round, 'type': b_type, 'super': b_super, 'property': b_property,
    'object': b_object, 'print': b_none, 'ord': b_ord, 'vars': b_vars, 'divmod': b_divmod, 'format': b_format,
    'staticmethod': lambda ip, a, k, st, site: ok(('D', 'static', a[0]), st),
    'classmethod': lambda ip, a, k, st, site: ok(('D', 'class', a[0]), st),
    'repr': lambda ip, a, k, st, site: ok(S('repr', (a[0],), 'str'), st),
    'ascii': lambda ip, a, k, st, site: ok(S('repr', (a[0],), 'str'), st),
    'id': lambda ip, a, k, st, site: ok(S('id', (a[0],), 'int'), st),
    'hash': lambda ip, a, k, st, site: ok(S('hash', (a[0],), 'int'), st),
    'int.from_bytes': b_frombytes, 'delitem': b_none, 'slice': lambda ip, a, k, st, site: ok(('SLICE',) + (
        (NONE, a[0], NONE) if len(a) == 1 else (tuple(a) + (NONE,))[:3]), st),
    'chr': lambda ip, a, k, st, site: ok(S('chr', (a[0],), 'str'), st),
    'hex': lambda ip, a, k, st, site: ok(S('hex', (a[0],), 'str'), st),
    'str.encode': lambda ip, a, k, st, site: text_method(ip, a[0], 'encode', a[1:], k, st, site),
    'bytes.decode': lambda ip, a, k, st, site: text_method(ip, a[0], 'decode', a[1:], k, st, site),
    'str.join': lambda ip, a, k, st, site: text_join(ip, a[0], a[1], st, site),
    'locals': b_none, 'globals': b_none,
}
