"""Models of methods and attributes of library objects; instantiation."""
from .values import *
from .core import *
from .m_lib import *
from .m_lib import ok, arg, ext_obj, maybe, spawn, spawn_call, new_list, text_method, await_ext, int_method, content, cat, is_text
from .m_data import CONTAINER, dict_new, list_add, value_eq
from .m_calls import f_pack, f_unpack, f_unpack_from, f_copy
from . import m_bytes as mb


def fld(st, o, name, default=NONE):
    obj = st.obj(o) if o[0] == 'O' else None
    return obj.f.get(name, default) if obj is not None else default


def put(st, o, name, v):
    if o[0] == 'O' and st.obj(o) is not None:
        st.put(o, st.obj(o).set(name, v))


def none(ip, o, args, kws, st, site):
    return ok(NONE, st)


def selfv(ip, o, args, kws, st, site):
    return ok(o, st)


def fresh_m(typ, name=None):
    def f(ip, o, args, kws, st, site):
        return ok(ip.fresh('ext', (K(name or typ), o), typ, site), st)
    return f


def raises(dotted, typ=None):
    """may raise; a fresh result"""
    def f(ip, o, args, kws, st, site):
        v = NONE if typ is None else ip.fresh('ext', (K(typ), o), typ if typ != 'any' else None, site)
        return maybe(ip, st, site, dotted, v)
    return f


# ---------------------------------------------------------------- loops, tasks, futures

def loop_run(ip, o, args, kws, st, site):
    return ip.await_(args[0], st, site)


def loop_task(ip, o, args, kws, st, site):
    return spawn(ip, args[0], st, 'task', site, 'loop' if ip.thread == 'loop' else None)


def loop_soon_ts(ip, o, args, kws, st, site):
    return spawn_call(ip, args[0], args[1:], [], st, 'threadsafe', site, 'loop')


def loop_soon(ip, o, args, kws, st, site):
    return spawn_call(ip, args[0], args[1:], [], st, 'soon', site, None)


def loop_later(ip, o, args, kws, st, site):
    return spawn_call(ip, args[1], args[2:], [], st, 'later', site, None)


def loop_executor(ip, o, args, kws, st, site):
    return spawn_call(ip, args[1], args[2:], [], st, 'executor', site, 'worker')


def loop_future(ip, o, args, kws, st, site):
    return ok(ext_obj(ip, st, 'asyncio.Future', site), st)


def fut_result(ip, o, args, kws, st, site):
    if o[0] == 'FUT':
        out = []
        tmo = arg(args, kws, 0, 'timeout', ('NOARG',))
        if tmo != ('NOARG',) and tmo != NONE:
            s2 = st.clone()
            out.append(ip.raise_('builtins.TimeoutError', s2, site, ('result', site)))
            s3 = st.clone()
            out.append(ip.raise_('concurrent.futures.CancelledError', s3, site))
        out.append((o[1] == 'ok', o[2], st))
        return out
    return maybe(ip, st, site, 'builtins.Exception', fld(st, o, '%result', S('result', (o,))))


def fut_cb(ip, o, args, kws, st, site):
    out = []
    for k, v, s in spawn_call(ip, args[0], [o], [], st, 'callback', site, None):
        out.append((k, NONE if k else v, s))
    return out


def fut_exc(ip, o, args, kws, st, site):
    if o[0] == 'FUT':
        return ok(NONE if o[1] == 'ok' else o[2], st)
    return ok(ip.fresh('ext', (K('exception'), o), None, site), st)


def fut_cancel(ip, o, args, kws, st, site):
    return ok(ip.fresh('ext', (K('cancel'), o), 'bool', site), st)


def fut_set(ip, o, args, kws, st, site):
    put(st, o, '%result', args[0])
    put(st, o, '%set', TRUE)
    return ok(NONE, st)


def fut_setexc(ip, o, args, kws, st, site):
    put(st, o, '%exc', args[0])
    put(st, o, '%set', TRUE)
    return ok(NONE, st)


# ---------------------------------------------------------------- events, locks

def ev_set(ip, o, args, kws, st, site):
    put(st, o, '%set', TRUE)
    return ok(NONE, st)


def ev_clear(ip, o, args, kws, st, site):
    put(st, o, '%set', FALSE)
    return ok(NONE, st)


def ev_isset(ip, o, args, kws, st, site):
    v = fld(st, o, '%set')
    return ok(v if v == TRUE else ip.fresh('ext', (K('is_set'), o), 'bool', site), st)


def lock_acquire(ip, o, args, kws, st, site):
    out = []
    blocking = arg(args, kws, 0, 'blocking', TRUE)
    tmo = arg(args, kws, 1, 'timeout', K(-1))
    if blocking != TRUE or tmo != K(-1):
        out.append((True, FALSE, st.clone()))
    return out + ip.acquire(o, st, site)


def lock_release(ip, o, args, kws, st, site):
    ip.release(o, st, site)
    return ok(NONE, st)


def lock_locked(ip, o, args, kws, st, site):
    return ok(TRUE if o in st.locks else ip.fresh('ext', (K('locked'), o), 'bool', site), st)


# ---------------------------------------------------------------- threads, executors, queues

def thr_start(ip, o, args, kws, st, site):
    t = fld(st, o, '%target')
    if t == NONE:
        return ok(NONE, st)
    a = fld(st, o, '%args', T())
    k = fld(st, o, '%kwargs')
    sp = ip.iterate(a, st, site)
    pos = list(sp[1]) if sp[0] == 'known' else [('*', a)]
    kw = [(None, k)] if k != NONE else []
    out = []
    for b, v, s in spawn_call(ip, t, pos, kw, st, 'thread', site, 'thread'):
        out.append((b, NONE if b else v, s))
    return out


def ex_submit(ip, o, args, kws, st, site):
    return spawn_call(ip, args[0], args[1:], kws, st, 'submit', site, 'worker')


def q_get(ip, o, args, kws, st, site):
    block = arg(args, kws, 0, 'block', TRUE)
    tmo = arg(args, kws, 1, 'timeout')
    v = ip.fresh('queued', (o,), None, site)
    if block == TRUE and tmo == NONE:
        return ok(v, st)
    s2 = st.clone()
    return [(True, v, st), ip.raise_('queue.Empty', s2, site)]


def q_put(ip, o, args, kws, st, site):
    block = arg(args, kws, 1, 'block', TRUE)
    tmo = arg(args, kws, 2, 'timeout')
    if block == TRUE and tmo == NONE:
        return ok(NONE, st)
    s2 = st.clone()
    return [(True, NONE, st), ip.raise_('queue.Full', s2, site)]


def q_get_nowait(ip, o, args, kws, st, site):
    return q_get(ip, o, [FALSE], [], st, site)


def q_put_nowait(ip, o, args, kws, st, site):
    return q_put(ip, o, [args[0], FALSE], [], st, site)


# ---------------------------------------------------------------- sockets, files

def sock_recv(ip, o, args, kws, st, site):
    d = ip.fresh('data', (o,), 'bytes', site)
    n = args[0] if args else None
    if n is not None and lin_of(n) is not None:
        room = lin_add(lin_add(lin_of(n), ip.length_of(d, st), -1), {None: 1})
        k = ip.pos_key(room)
        if k not in (True, False):
            st.facts[k[0]] = k[1]
    return maybe(ip, st, site, 'builtins.OSError', d)


def sock_send(ip, o, args, kws, st, site):
    n = ip.fresh('sent', (o,), 'int', site)
    room = ip.length_of(content(args[0], st), st)
    for d in (lin_add(lin_of(n), {None: 1}), lin_add(lin_add(room, lin_of(n), -1), {None: 1}) if room is not None else None):
        if d is None:
            continue
        k = ip.pos_key(d)
        if k not in (True, False):
            st.facts[k[0]] = k[1]
    return maybe(ip, st, site, 'builtins.OSError', n)


def sel_register(ip, o, args, kws, st, site):
    put(st, o, 'reg', args[0])
    put(st, o, 'events', arg(args, kws, 1, 'events'))
    s2 = st.clone()
    r = maybe(ip, st, site, 'builtins.ValueError', NONE)
    r.append((False, ip.any_exc('builtins.OSError'), s2))
    return r


def sel_select(ip, o, args, kws, st, site):
    s2 = st.clone()
    key = ext_obj(ip, st, 'selectors.SelectorKey', site, fileobj=fld(st, o, 'reg'), events=fld(st, o, 'events'),
                  fd=S('ext', (K('fd'), o), 'int'))
    m = fld(st, o, 'events')
    full = new_list(ip, st, site, [T(key, m)])
    out = [(True, full, st)]
    if arg(args, kws, 0, 'timeout') != NONE:
        out.append((True, new_list(ip, s2, site, []), s2))
    return out


def bio_write(ip, o, args, kws, st, site):
    d = content(args[0], st)
    put(st, o, 'v', cat([fld(st, o, 'v', K(b'')), d], 'bytes'))
    n = ip.length_of(d, st)
    return ok(lin_val(n) if n is not None else ip.fresh('ext', (K('written'),), 'int', site), st)


def bio_value(ip, o, args, kws, st, site):
    return ok(fld(st, o, 'v', K(b'')), st)


def bio_read(ip, o, args, kws, st, site):
    pos = fld(st, o, 'pos', ZERO)
    n = arg(args, kws, 0, 'size', K(-1))
    hi = NONE if n in (K(-1), NONE) else lin_val(lin_add(lin_of(pos), lin_of(n)))
    out = []
    for b, v, s in mb.slice_text(ip, fld(st, o, 'v', K(b'')), pos, hi, NONE, st, site):
        if b:
            put(s, o, 'pos', lin_val(lin_add(lin_of(pos), ip.length_of(v, s))))
        out.append((b, v, s))
    return out


def bio_seek(ip, o, args, kws, st, site):
    put(st, o, 'pos', args[0])
    return ok(args[0], st)


def ba_extend(ip, o, args, kws, st, site):
    d = content(args[0], st)
    if typeof(d) != 'bytes':
        d = ip.fresh('ext', (K('bytes of'), d), 'bytes', site)
    put(st, o, '.v', cat([fld(st, o, '.v', K(b'')), d], 'bytes'))
    return ok(NONE, st)


def ba_clear(ip, o, args, kws, st, site):
    put(st, o, '.v', K(b''))
    return ok(NONE, st)


def struct_m(f):
    def g(ip, o, args, kws, st, site):
        return f(ip, [fld(st, o, 'format')] + list(args), kws, st, site)
    return g


def rfile_read(ip, o, args, kws, st, site):
    d = ip.fresh('data', (o,), 'bytes', site)
    return maybe(ip, st, site, 'builtins.OSError', d)


def resp_json(ip, o, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.ValueError', S('attr', (o, 'json()')))


def post(ip, o, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.OSError', ext_obj(ip, st, 'requests.Response', site))


M = {
    'asyncio.Loop': {'run_until_complete': loop_run, 'run_forever': none, 'create_task': loop_task, 'call_soon': loop_soon,
                     'call_soon_threadsafe': loop_soon_ts, 'call_later': loop_later, 'call_at': loop_later,
                     'run_in_executor': loop_executor, 'create_future': loop_future, 'stop': none, 'close': none,
                     'is_running': fresh_m('bool'), 'is_closed': fresh_m('bool'), 'time': fresh_m('float'), 'set_debug': none,
                     'set_exception_handler': none},
    'FUT': {'result': fut_result, 'add_done_callback': fut_cb, 'exception': fut_exc, 'cancel': fut_cancel,
            'done': fresh_m('bool'), 'cancelled': fresh_m('bool'), 'running': fresh_m('bool'), 'remove_done_callback': none},
    'asyncio.Event': {'set': ev_set, 'clear': ev_clear, 'is_set': ev_isset},
    'LOCK': {'acquire': lock_acquire, 'release': lock_release, 'locked': lock_locked, 'notify': none, 'notify_all': none,
             'wait': none, '__enter__': lock_acquire, '__exit__': lock_release},
    'threading.Event': {'set': ev_set, 'clear': ev_clear, 'is_set': ev_isset, 'wait': fresh_m('bool')},
    'threading.Thread': {'start': thr_start, 'join': none, 'is_alive': fresh_m('bool'), 'setDaemon': none, 'cancel': none,
                         'run': thr_start},
    'concurrent.futures.ThreadPoolExecutor': {'submit': ex_submit, 'shutdown': none},
    'queue.Queue': {'get': q_get, 'put': q_put, 'get_nowait': q_get_nowait, 'put_nowait': q_put_nowait, 'task_done': none,
                    'join': none, 'qsize': fresh_m('int', 'qsize'), 'empty': fresh_m('bool', 'empty'), 'full': fresh_m('bool', 'full')},
    'socket.socket': {'recv': sock_recv, 'send': sock_send, 'sendall': raises('builtins.OSError'),
                      'connect': raises('builtins.OSError'), 'connect_ex': fresh_m('int'), 'close': raises('builtins.OSError'),
                      'setsockopt': none, 'setblocking': none, 'settimeout': none, 'fileno': fresh_m('int', 'fileno'),
                      'shutdown': raises('builtins.OSError'), 'getsockopt': fresh_m('int'), 'getpeername': raises('builtins.OSError', 'any')},
    'selectors.DefaultSelector': {'register': sel_register, 'select': sel_select, 'close': none, 'unregister': none,
                                  'modify': none, '__enter__': selfv, '__exit__': none},
    'io.BytesIO': {'write': bio_write, 'getvalue': bio_value, 'read': bio_read, 'seek': bio_seek, 'close': none,
                   'getbuffer': bio_value, '__enter__': selfv, '__exit__': none},
    'bytearray': {'extend': ba_extend, 'append': ba_extend, 'clear': ba_clear},
    'struct.Struct': {'pack': struct_m(f_pack), 'unpack': struct_m(f_unpack), 'unpack_from': struct_m(f_unpack_from)},
    'rfile': {'read': rfile_read, 'readline': rfile_read, 'close': none, 'readinto': raises('builtins.OSError', 'int')},
    'wfile': {'write': raises('builtins.OSError'), 'flush': raises('builtins.OSError'), 'close': none},
    'asyncio.StreamWriter': {'write': none, 'writelines': none, 'write_eof': raises('builtins.OSError'), 'close': none,
                             'is_closing': fresh_m('bool', 'is_closing'), 'can_write_eof': fresh_m('bool'),
                             'get_extra_info': fresh_m(None, 'extra')},
    'asyncio.StreamReader': {'at_eof': fresh_m('bool', 'at_eof')},
    'asyncio.Server': {'close': none, 'is_serving': fresh_m('bool')},
    'requests.session': {'post': post, 'get': post, 'put': post, 'request': post, 'close': none, '__enter__': selfv, '__exit__': none},
    'requests.Response': {'json': resp_json, 'raise_for_status': raises('builtins.OSError'), 'close': none},
    'socketserver.ThreadingTCPServer': {'serve_forever': none, 'shutdown': none, 'server_close': none, 'handle_error': none},
    'asyncio.Queue': {'put_nowait': none, 'get_nowait': fresh_m(None), 'qsize': fresh_m('int'), 'empty': fresh_m('bool')},
    'asyncio.Future': {'result': fut_result, 'set_result': fut_set, 'set_exception': fut_setexc, 'done': fresh_m('bool', 'done'),
                       'cancel': fut_cancel, 'cancelled': fresh_m('bool'), 'add_done_callback': none, 'exception': fut_exc},
}
M['memoryview'] = {'release': none}
for _t in ('queue.LifoQueue', 'queue.SimpleQueue', 'queue.PriorityQueue'):
    M[_t] = M['queue.Queue']
M['concurrent.futures.Future'] = M['asyncio.Future']
M['socketserver.TCPServer'] = M['socketserver.ThreadingTCPServer']


def type_name(ip, v, st):
    if v[0] == 'FUT':
        return 'FUT'
    if v[0] == 'O':
        o = st.obj(v)
        if o is None:
            return None
        if o.kind == 'ext':
            return o.cls[1]
        return o.kind
    if v[0] in ('CO', 'AW', 'GEN'):
        return {'CO': 'coroutine', 'AW': 'awaitable', 'GEN': 'generator'}[v[0]]
    if v[0] == 'SUP':
        return 'super'
    return typeof(v)


def ext_method(ip, recv, name, args, kws, st, site):
    t = recv[0]
    if t == 'SUP':
        return super_method(ip, recv, name, args, kws, st, site)
    if t == 'X':
        return ip.ext_call(recv[1] + '.' + name, args, kws, st, site)
    typ = type_name(ip, recv, st)
    if any(a[0] == '*' for a in args):
        flat = []
        for a in args:
            sp = ip.iterate(a[1], st, site) if a[0] == '*' else ('known', [a])
            flat += sp[1] if sp[0] == 'known' else [S('item', (a[1], ZERO))]
        args = flat
    r = ip.mon.ext_call(ip, '%s.%s' % (typ, name), [recv] + list(args), kws, st, site)
    if r is not None:
        return r
    if (typ, name) in ASYNC_METHODS:
        return ok(('AW', typ + '.' + name, (recv,) + tuple(args), tuple(kws), site), st)
    try:
        if typ in ip.LOCKS and name in M['LOCK']:
            return M['LOCK'][name](ip, recv, args, kws, st, site)
        f = M.get(typ, {}).get(name)
        if f is not None:
            return f(ip, recv, args, kws, st, site)
        v = content(recv, st)
        if typeof(v) in ('str', 'bytes') and v[0] in ('K', 'S'):
            return text_method(ip, v, name, [content(a, st) for a in args], kws, st, site)
        if typeof(v) in ('int', 'bool', 'float'):
            return int_method(ip, v, name, args, kws, st, site)
    except IndexError:
        return [ip.raise_('builtins.TypeError', st, site)]
    if t == 'T' or (t == 'K' and isinstance(recv[2], (tuple, range))):
        return tuple_method(ip, recv, name, args, kws, st, site)
    if t == 'S' and recv[1] == 'view' and name in ('__iter__',):
        return ok(recv, st)
    if t == 'F' and name == '__call__' or t == 'B' and name == '__call__':
        return ip.call(recv, args, kws, st, site)
    if t == 'O':
        o = st.obj(recv)
        if o.kind == 'class':
            return class_method(ip, recv, name, args, kws, st, site)
        if o.m.get('nt'):
            return nt_method(ip, recv, o, name, args, kws, st, site)
        if o.kind in ('dict', 'list', 'set'):
            if name in ('__init__',):
                return ok(NONE, st)
            ip.note('method %s of %s not modelled' % (name, o.kind))
            return ok(ip.fresh('ext', (K(name), recv), None, site), st)
        if o.kind == 'inst':
            return inst_method(ip, recv, name, args, kws, st, site)
    if name == 'with_traceback':
        return ok(recv, st)
    if name in ('__enter__',):
        return ok(recv, st)
    if name in ('__exit__', '__aexit__'):
        return ok(NONE, st)
    if t == 'S' and name in ('close',) or t in ('CO', 'GEN') and name == 'close':
        return ok(NONE, st)
    if typ is not None and typ not in ('function',):
        ip.note('method %s.%s not modelled' % (typ, name))
    return ok(ip.fresh('ret', (S('attr', (recv, name)) if t == 'S' else K(name),), None, site), st)


def tuple_method(ip, v, name, args, kws, st, site):
    if name == 'count':
        return ok(ip.fresh('ext', (K('count'), v), 'int', site), st)
    if name == 'index':
        return maybe(ip, st, site, 'builtins.ValueError', ip.fresh('ext', (K('index'), v), 'int', site))
    if name == '__contains__':
        return ip.models.contains(ip, args[0], v, st, site)
    return ok(ip.fresh('ext', (K(name), v), None, site), st)


def class_method(ip, c, name, args, kws, st, site):
    if name in ('__new__', ):
        return ok(ip.alloc(st, 'inst:%s@%s' % (ip.cls_name(args[0], st), site), HObj('inst', args[0], {}, {})), st)
    if name == '_make' and st.obj(c).m.get('nt'):
        return instantiate(ip, c, [('*', args[0])], [], st, site)
    if name == '__subclasses__':
        return ok(ip.fresh('ext', (K(name), c), None, site), st)
    if name == '__init__':
        return ok(NONE, st)
    if name == 'mro':
        return ok(T(*ip.mro(c, st)), st)
    ip.note('class method %s not modelled' % name)
    return ok(ip.fresh('ext', (K(name), c), None, site), st)


def nt_method(ip, o, obj, name, args, kws, st, site):
    if name == '_asdict':
        return ok(ip.alloc(st, 'dict@' + site, HObj('dict', 'dict', {}, {'items': tuple((K(k), obj.f[k]) for k in obj.m['nt'])})), st)
    if name == '_replace':
        f = dict(obj.f)
        f.update({k: v for k, v in kws if k})
        return ok(ip.alloc(st, 'nt@' + site, HObj('inst', obj.cls, f, obj.m)), st)
    return inst_method(ip, o, name, args, kws, st, site)


def inst_method(ip, o, name, args, kws, st, site):
    if name in ('__init__', '__init_subclass__', '__setattr__', '__del__'):
        if name == '__setattr__' and len(args) == 2 and is_k(args[0], str):
            ip.mon.store_attr(ip, o, args[0][2], args[1], st)
            put(st, o, args[0][2], args[1])
        return ok(NONE, st)
    if name in ('__str__', '__repr__'):
        return ok(S('str', (o,), 'str'), st)
    if name == '__hash__':
        return ok(S('hash', (o,), 'int'), st)
    if name == '__eq__':
        return ok(K(True) if o == args[0] else ip.fact(('eqv', o, args[0])), st)
    if name == 'with_traceback':
        return ok(o, st)
    ip.note('method %s of an instance not modelled' % name)
    return ok(ip.fresh('ext', (K(name), o), None, site), st)


def super_method(ip, sup, name, args, kws, st, site):
    """method of a base class that is not analysed"""
    o = sup[2]
    obj = st.obj(o) if o[0] == 'O' else None
    if name == '__new__':
        c = args[0]
        return ok(ip.alloc(st, 'inst:%s@%s' % (ip.cls_name(c, st), site), new_obj(ip, c, st)), st)
    if obj is None:
        return ok(ip.fresh('ext', (K('super.' + name), o), None, site), st)
    if obj.kind in ('dict', 'list', 'set'):
        if name == '__init__':
            return init_container(ip, o, args, kws, st, site)
        f = CONTAINER.get((obj.kind, name))
        if f is not None:
            return f(ip, o, args, kws, st, site)
    if name == '__init__':
        if args:
            st.put(o, st.obj(o).meta(excargs=T(*[a for a in args if a[0] != '*'])))
        base = [c for c in ip.mro(obj.cls, st) if c[0] == 'X'] if isinstance(obj.cls, tuple) else []
        for c in base:
            r = ip.mon.ext_call(ip, c[1] + '.__init__', [o] + list(args), kws, st, site)
            if r is not None:
                return r
            if c[1].endswith('Thread'):
                put(st, o, '%target', arg(args, kws, 1, 'target'))
        return ok(NONE, st)
    if name == '__setattr__' and len(args) == 2 and is_k(args[0], str):
        ip.mon.store_attr(ip, o, args[0][2], args[1], st)
        put(st, o, args[0][2], args[1])
        return ok(NONE, st)
    if name == '__getattribute__' and is_k(args[0], str):
        return ip.getattr_(o, args[0][2], st, site)
    if name == '__call__' and obj.kind == 'class':
        return instantiate(ip, o, args, kws, st, site, meta=False)
    base = [c for c in ip.mro(obj.cls, st) if c[0] == 'X'] if isinstance(obj.cls, tuple) else []
    for c in base:
        r = base_attr(ip, o, c[1], name, st, site)
        if r is not None:
            return ip.bind(r, lambda f, s: ip.call(f, args, kws, s, site))
    return inst_method(ip, o, name, args, kws, st, site)


def init_container(ip, o, args, kws, st, site):
    obj = st.obj(o)
    if obj.kind == 'dict':
        out = []
        for b, d, s in dict_new(ip, st, site, args, kws):
            if b:
                m = {k: v for k, v in s.obj(d).m.items()}
                cur = dict(s.obj(o).m)
                cur.update(m)
                cur.pop('excargs', None)
                s.put(o, HObj('dict', s.obj(o).cls, s.obj(o).f, cur))
                out.append((True, NONE, s))
            else:
                out.append((b, d, s))
        return out
    if args:
        out = []
        for b, l, s in BUILTINS[obj.kind](ip, args[:1], [], st, site):
            if b and l[0] == 'O':
                cur = dict(s.obj(o).m)
                cur.update(s.obj(l).m)
                s.put(o, HObj(obj.kind, s.obj(o).cls, s.obj(o).f, cur))
                out.append((True, NONE, s))
            else:
                out.append((b, NONE if b else l, s))
        return out
    return ok(NONE, st)


# ---------------------------------------------------------------- attributes

ATTR_TYPES = {('requests.Response', 'status_code'): 'int', ('requests.Response', 'ok'): 'bool',
              ('requests.Response', 'text'): 'str', ('requests.Response', 'content'): 'bytes',
              ('asyncio.StreamWriter', 'transport'): 'asyncio.Transport', ('queue.Queue', 'maxsize'): 'int',
              ('queue.Queue', 'queue'): 'list', ('queue.Queue', 'mutex'): 'threading.Lock',
              ('queue.LifoQueue', 'mutex'): 'threading.Lock', ('struct.Struct', 'format'): 'str'}


def ext_attr(ip, o, typ, name, st, site):
    if typ == 'struct.Struct' and name == 'size':
        f = mb.parse_fmt(ip, content(fld(st, o, 'format'), st), st)
        return ok(lin_val(f.total()) if f is not None else ip.fresh('ext', (K('size'), o), 'int', site), st)
    if typ == 'threading.local':
        if name == '__dict__':
            return ok(fld(st, o, '.dict'), st)
        return [ip.raise_('builtins.AttributeError', st, site)]
    if (typ, name) in ATTR_TYPES:
        return ok(S('attr', (o, name), ATTR_TYPES[(typ, name)]), st)
    if typ is not None and typ != 'object!':
        if name in M.get(typ, {}) or (typ, name) in ASYNC_METHODS or typ in ip.LOCKS or typ in ('str', 'bytes', 'int', 'float', 'bool'):
            if typ in ('str', 'bytes', 'int', 'float', 'bool') and not hasattr(getattr(__import__('builtins'), typ), name):
                return [ip.raise_('builtins.AttributeError', st, site)]
            return ok(('M', o, name), st)
        rc = real_class(typ)
        if rc is not None:
            a = getattr(rc, name, None)
            if a is None and not hasattr(rc, name) and typ not in ('socket.socket',) and '.' not in typ:
                return [ip.raise_('builtins.AttributeError', st, site)]
            if callable(a):
                return ok(('M', o, name), st)
        return ok(S('attr', (o, name)), st)
    return ok(S('attr', (o, name)), st)


def exc_attr(ip, o, name, st, site):
    """attribute of an exception of a library"""
    if name == 'args':
        a = o[4][1:] if o[0] == 'XC' and o[4][:1] == ('args',) else None
        if o[0] == 'O' and st.obj(o).m.get('excargs'):
            return ok(st.obj(o).m['excargs'], st)
        return ok(T(*a) if a is not None else S('attr', (S('exc', (), None), name)), st)
    if name in ('with_traceback', 'add_note', '__init__', '__str__', '__repr__'):
        return ok(('M', o, name), st)
    if name in ('__cause__', '__context__', '__traceback__', '__suppress_context__'):
        return ok(S('attr', (S('exc', (), None), name)), st)
    c = o[1][1] if o[0] == 'XC' else None
    rc = real_class(c) if c else None
    if rc is not None and not hasattr(rc, name) and name not in ('partial', 'expected', 'errno'):
        if o[3]:
            return [ip.raise_('builtins.AttributeError', st, site)]
    return ok(ip.fresh('excattr', (K(name),), 'int' if name == 'errno' else 'bytes' if name == 'partial' else None, site), st)


def base_attr(ip, o, base, name, st, site):
    """attribute found in a base class of a library, or None"""
    last = base.rsplit('.', 1)[-1]
    if last in ('StreamRequestHandler', 'BaseRequestHandler', 'DatagramRequestHandler'):
        if name in ('rfile', 'wfile', 'request', 'connection', 'client_address', 'server'):
            v = S('attr', (o, name), {'rfile': 'rfile', 'wfile': 'wfile', 'request': 'socket.socket',
                                      'connection': 'socket.socket'}.get(name))
            return ok(v, st)
        if name in ('finish', 'setup'):
            return ok(('M', o, name), st)
    rc = real_class(base)
    if rc is not None and issubclass(rc, BaseException):
        if name in ('args', 'with_traceback', 'errno', 'add_note', '__cause__', '__context__', '__traceback__', 'strerror'):
            return exc_attr(ip, o, name, st, site)
    if last in ('MutableMapping', 'Mapping', 'Set', 'MutableSet', 'MutableSequence', 'Sequence') and base.startswith('collections'):
        mod = ip.stubs()
        c = mod.get(last)
        if c is not None:
            r = ip.cls_lookup(c, name, st)
            if r:
                return ip.bind_attr(r[0], o, st.obj(o).cls, st, site)
    if last == 'Thread' and name in M['threading.Thread']:
        if name == 'start':
            r = ip.cls_lookup(st.obj(o).cls, 'run', st)
            if r:
                put(st, o, '%target', ('B', o, r[0]))
        return ok(('MT', o, name), st)
    if last in ('Singleton', 'ABC', 'object', 'type', 'Generic'):
        return None
    if rc is not None and not issubclass(rc, BaseException) and hasattr(rc, name) and base != 'builtins.object':
        return ok(('M', o, name), st)
    if rc is None and base != 'builtins.object':
        return ok(S('attr', (o, name)), st)
    return None


# ---------------------------------------------------------------- calls of unknown things

def call_sym(ip, f, args, kws, st, site):
    r = ip.mon.ext_call(ip, 'call:', [f] + list(args), kws, st, site)
    if r is not None:
        return r
    if f[0] == 'S' and f[1] == 'attr':
        return ext_method(ip, f[2][0], f[2][1], args, kws, st, site)
    if f[0] == 'MT':
        return M['threading.Thread'][f[2]](ip, f[1], args, kws, st, site)
    if f[0] == 'D' and f[1] == 'star':
        sp = ip.iterate(args[0], st, site)
        if sp[0] == 'known':
            return ip.call(f[2], sp[1], kws, st, site)
    if f[0] == 'D' and f[1] == 'itemgetter':
        if len(f[2]) == 1:
            return ip.getitem(args[0], f[2][0], st, site)
        return ip.seq([lambda s, k=k: ip.getitem(args[0], k, s, site) for k in f[2]], st) and ip.bind(
            ip.seq([lambda s, k=k: ip.getitem(args[0], k, s, site) for k in f[2]], st), lambda vs, s: ok(T(*vs), s))
    if f[0] == 'D' and f[1] == 'attrgetter' and is_k(f[2][0], str):
        return ip.getattr_(args[0], f[2][0][2], st, site)
    if f[0] == 'D' and f[1] == 'wraps':
        return ok(args[0], st)
    return ok(ip.fresh('ret', (f,) + tuple(a for a in args if a[0] != '*'), None, site), st)


# ---------------------------------------------------------------- instantiation

KINDS = {'builtins.dict': 'dict', 'collections.OrderedDict': 'dict', 'collections.defaultdict': 'dict',
         'collections.UserDict': 'dict', 'builtins.list': 'list', 'builtins.set': 'set', 'builtins.frozenset': 'set'}


def new_obj(ip, c, st):
    for b in ip.mro(c, st):
        if b[0] == 'X' and b[1] in KINDS:
            k = KINDS[b[1]]
            return HObj(k, c, {}, {'items': ()})
    return HObj('inst', c, {}, {})


def instantiate(ip, c, args, kws, st, site, meta=True):
    o = st.obj(c)
    if o.m.get('enum'):
        return enum_of(ip, c, o, args, st, site)
    if o.m.get('nt') is not None:
        return make_nt(ip, c, o, args, kws, st, site)
    name = ip.cls_name(c, st)
    for b in ip.mro(c, st)[1:]:
        bo = st.obj(b) if b[0] == 'O' else None
        if bo is not None and bo.m.get('nt') is not None:
            if any(x and x[0][0] in ('F', 'D') for x in (ip.cls_lookup(c, '__new__', st), ip.cls_lookup(c, '__init__', st))):
                break
            return make_nt(ip, c, o, args, kws, st, site, bo)
    if o.m.get('attrs') is not None and not ip.cls_lookup(c, '__init__', st):
        return make_attrs(ip, c, o, args, kws, st, site)
    r = ip.mon.ext_call(ip, 'new:' + str(name), [c] + list(args), kws, st, site)
    if r is not None:
        return r
    new = ip.cls_lookup(c, '__new__', st)
    if new and new[0][0] in ('F', 'D'):
        f = new[0][2] if new[0][0] == 'D' else new[0]
        made = ip.call(f, [c] + list(args), kws, st, site)
    else:
        ref = ip.alloc(st, 'inst:%s@%s' % (name, site), new_obj(ip, c, st))
        ip.mon.alloc(ip, c, ref, st, site)
        made = [(True, ref, st)]
    out = []
    for b, v, s in made:
        if not b:
            out.append((b, v, s))
            continue
        if v[0] != 'O' or s.obj(v) is None or not isinstance(s.obj(v).cls, tuple) or not ip.is_sub(s.obj(v).cls, c, s):
            out.append((True, v, s))
            continue
        init = ip.cls_lookup(c, '__init__', s)
        if init:
            s.tmp += (v,)
            for b2, x, s2 in ip.bind(ip.bind_attr(init[0], v, c, s, site), lambda f, q: ip.call(f, args, kws, q, site)):
                v2 = s2.tmp[-1]
                s2.tmp = s2.tmp[:-1]
                ip.mon.built(ip, c, v2, b2, s2, site)
                out.append((True, v2, s2) if b2 else (b2, x, s2))
            continue
        obj = s.obj(v)
        if obj.kind in ('dict', 'list', 'set'):
            for b2, x, s2 in init_container(ip, v, args, kws, s, site):
                out.append((True, v, s2) if b2 else (b2, x, s2))
            continue
        xb = [k for k in ip.mro(c, s) if k[0] == 'X' and k[1] != 'builtins.object']
        if args or kws:
            if not xb:
                out.append(ip.raise_('builtins.TypeError', s, site, ('args', name)))
                continue
            s.put(v, obj.meta(excargs=T(*[a for a in args if a[0] != '*'])))
        done = False
        for k in xb:
            r = ip.mon.ext_call(ip, k[1] + '.__init__', [v] + list(args), kws, s, site)
            if r is not None:
                out.extend((True, v, s2) if b2 else (b2, x, s2) for b2, x, s2 in r)
                done = True
                break
        if not done:
            out.append((True, v, s))
    return out


def enum_of(ip, c, o, args, st, site):
    v = args[0]
    if v[0] == 'E':
        if v[1] == c:
            return ok(v, st)
        v = v[3]
    if v[0] == 'S' and v[1] == 'enum':
        if v[2][0] == c:
            return ok(v, st)
        v = v[2][1]
    members = [o.f[m] for m in o.m['members']]

    def missing(s):
        r = ip.cls_lookup(c, '_missing_', s)
        if r and r[0][0] == 'F':
            out = []
            for k, x, s2 in ip.call(('B', c, r[0]), [v], [], s, site):
                if not k:
                    out.append((k, x, s2))
                    continue
                if x == NONE:
                    out.append(ip.raise_('builtins.ValueError', s2, site, ('enum',)))
                else:
                    out.append((True, x, s2))
            return out
        return [ip.raise_('builtins.ValueError', s, site, ('enum',))]
    if v[0] == 'K':
        for e in members:
            if const(e)[1] == v[2] and const(e)[0]:
                return ok(e, st)
        return missing(st)
    s2 = st.clone()
    e = S('enum', (c, v), c)
    # what the facts say about the value
    cand = []
    for m in members:
        k = value_eq(ip, v, m[3], st)
        k = ip.know(k[0], st) == k[1] if isinstance(k, tuple) and ip.know(k[0], st) is not None else k if k in (True, False) else None
        if k is True:
            return ok(m, st)
        if k is None:
            cand.append(m)
    if not cand:
        return missing(s2)
    if st.facts.get(('inenum', e)):
        return [(True, e, st)]
    st.facts[('inenum', e)] = True
    return [(True, e, st)] + missing(s2)


def make_nt(ip, c, o, args, kws, st, site, base=None):
    cls_m, flat = (base or o).m, []
    for a in args:
        if a[0] == '*':
            sp = ip.iterate(a[1], st, site)
            if sp[0] == 'known':
                flat += sp[1]
            else:
                n = len(cls_m['nt']) - len(flat)
                flat += [S('item', (a[1], K(i))) for i in range(n)]
        else:
            flat.append(a)
    names = cls_m['nt']
    f = dict(zip(names, flat))
    if len(flat) > len(names):
        return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
    for k, v in kws:
        if k is None or k not in names or k in f:
            return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
        f[k] = v
    ds = cls_m.get('ntdef', ())
    for n, d in zip(names[len(names) - len(ds):], ds):
        f.setdefault(n, d)
    if len(f) != len(names):
        return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
    r = ip.alloc(st, 'nt:%s@%s' % (o.m['name'], site), HObj('inst', c, f, {'nt': tuple(names)}))
    return ok(r, st)


def make_attrs(ip, c, o, args, kws, st, site):
    names = [x[0] for x in o.m['attrs']]
    f = dict(zip([n.lstrip('_') for n in names], args))
    if len(args) > len(names):
        return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
    for k, v in kws:
        if k not in [n.lstrip('_') for n in names] or k in f:
            return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
        f[k] = v
    vals = {}
    for n, d, fac in o.m['attrs']:
        k = n.lstrip('_')
        if k in f:
            vals[n] = f[k]
        elif d != ('NODEFAULT',):
            vals[n] = d
        elif fac != ('NODEFAULT',):
            r = ip.call(fac, [], [], st, site)
            vals[n] = r[0][1]
            st = r[0][2]
        else:
            return [ip.raise_('builtins.TypeError', st, site, ('args', o.m['name']))]
    ref = ip.alloc(st, 'inst:%s@%s' % (o.m['name'], site), HObj('inst', c, vals, {}))
    ip.mon.alloc(ip, c, ref, st, site)
    return ok(ref, st)
