"""Models of library functions: ext_call."""
from .values import *
from .core import *
from .m_lib import *
from .m_lib import ok, arg, ext_obj, maybe, spawn, spawn_call, new_list, text_method
from .m_bytes import negkey
from .m_data import dict_new, dict_content, CONTAINER
from . import m_bytes as mb


def const_arg(v):
    return v[2] if v[0] == 'K' else None


# ---------------------------------------------------------------- struct

def fmt_of(ip, v, st):
    v = content(v, st)
    return mb.parse_fmt(ip, v, st)


def f_pack(ip, args, kws, st, site):
    f = fmt_of(ip, args[0], st)
    if f is None:
        return maybe(ip, st, site, 'struct.error', ip.fresh('packed', tuple(args), 'bytes', site))
    vals = []
    for a in args[1:]:
        if a[0] == '*':
            sp = ip.iterate(a[1], st, site)
            if sp[0] != 'known':
                return maybe(ip, st, site, 'struct.error', ip.fresh('packed', (a[1],), 'bytes', site))
            vals.extend(sp[1])
        else:
            vals.append(a)
    return mb.pack(ip, f, [content(v, st) for v in vals], st, site)


def f_unpack(ip, args, kws, st, site):
    f = fmt_of(ip, args[0], st)
    data = content(args[1], st)
    if f is None:
        return maybe(ip, st, site, 'struct.error', ip.fresh('unpacked', tuple(args), 'tuple', site))
    if is_k(data) and not isinstance(data[2], bytes) or data[0] == 'K' and data[2] is None:
        return [ip.raise_('builtins.TypeError', st, site)]
    return mb.unpack(ip, f, data, st, site)


def f_unpack_from(ip, args, kws, st, site):
    f = fmt_of(ip, args[0], st)
    data = content(arg(args, kws, 1, 'buffer'), st)
    off = arg(args, kws, 2, 'offset', ZERO)
    if f is None:
        return maybe(ip, st, site, 'struct.error', ip.fresh('unpacked', tuple(args), 'tuple', site))
    size = f.total()
    lo = ip.length_of(data, st)
    out = []
    end = lin_add(lin_of(off), size)
    room = lin_add(lo, end, -1)
    for b, s in forks(ip, negkey(ip, room), st):     # data too short
        if b:
            out.append(ip.raise_('struct.error', s, site))
        else:
            part = cut_or_slice(ip, data, lin_of(off), size, s)
            out.extend(mb.unpack(ip, f, part, s, site))
    return out


def f_calcsize(ip, args, kws, st, site):
    f = fmt_of(ip, args[0], st)
    if f is None:
        return ok(ip.fresh('calcsize', tuple(args), 'int', site), st)
    return ok(lin_val(f.total()), st)


def f_thr_local(ip, args, kws, st, site):
    d = ip.alloc(st, 'dict@local', HObj('dict', 'dict', {}, {'items': ()}))
    return ok(ext_obj(ip, st, 'threading.local', site, **{'.dict': d}), st)


def f_Struct(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'struct.Struct', site, format=args[0]), st)


# ---------------------------------------------------------------- asyncio

def to_aw(name):
    def f(ip, args, kws, st, site):
        return ok(('AW', name, tuple(args), tuple(kws), site), st)
    return f


def f_ensure_future(ip, args, kws, st, site):
    return spawn(ip, args[0], st, 'task', site, 'loop' if ip.thread == 'loop' else None)


def f_threadsafe(ip, args, kws, st, site):
    return spawn(ip, args[0], st, 'threadsafe', site, 'loop')


def f_loop(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'asyncio.Loop', site), st)


def f_wrap_future(ip, args, kws, st, site):
    return ok(args[0], st)


def f_run(ip, args, kws, st, site):
    return await_any(ip, args[0], st, site)


def await_any(ip, v, st, site):
    return ip.await_(v, st, site)


def f_timeout(ip, args, kws, st, site):
    return ok(('CMX', 'timeout', tuple(args)), st)


def ctor(typ, *names, **defaults):
    def f(ip, args, kws, st, site):
        fs = {}
        for i, n in enumerate(names):
            fs['%' + n] = arg(args, kws, i, n, defaults.get(n, NONE))
        return ok(ext_obj(ip, st, typ, site, **fs), st)
    return f


def f_aio_event(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'asyncio.Event', site, **{'%set': FALSE}), st)


def f_thr_event(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'threading.Event', site, **{'%set': FALSE}), st)


# ---------------------------------------------------------------- threads

def f_thread(ip, args, kws, st, site):
    t = arg(args, kws, 1, 'target')
    a = arg(args, kws, 3, 'args', T())
    k = arg(args, kws, 4, 'kwargs')
    d = arg(args, kws, None, 'daemon')
    return ok(ext_obj(ip, st, 'threading.Thread', site, **{'%target': t, '%args': a, '%kwargs': k, 'daemon': d}), st)


def f_timer(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'threading.Thread', site, **{
        '%target': arg(args, kws, 1, 'function'), '%args': arg(args, kws, 2, 'args', T()), '%kwargs': arg(args, kws, 3, 'kwargs')}), st)


# ---------------------------------------------------------------- misc

def f_none(ip, args, kws, st, site):
    return ok(NONE, st)


def f_identity(ip, args, kws, st, site):
    return ok(args[0], st)


def f_fresh(typ):
    def f(ip, args, kws, st, site):
        return ok(ip.fresh('ext', (), typ, site), st)
    return f


def f_randint(ip, args, kws, st, site):
    v = ip.fresh('random', tuple(args), 'int', site)
    for d in (lin_add(lin_of(v), lin_of(args[0]) or {}, -1), lin_add(lin_of(args[1]) or {}, lin_of(v), -1)):
        if lin_of(args[0]) is not None and lin_of(args[1]) is not None:
            k = ip.pos_key(lin_add(d, {None: 1}))
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple):
                ip.set_fact(k[0], k[1], st)
    return ok(v, st)


def f_randrange(ip, args, kws, st, site):
    return ok(ip.fresh('random', tuple(args), 'int', site), st)


def f_count(ip, args, kws, st, site):
    return ok(S('lazy', ('count', arg(args, kws, 0, 'start', ZERO), arg(args, kws, 1, 'step', ONE), ('@', site, ip.ctxid))), st)


def f_cycle(ip, args, kws, st, site):
    return ok(S('lazy', ('cycle', args[0])), st)


def f_lazy(kind):
    def f(ip, args, kws, st, site):
        return ok(ip.fresh('ext', (K(kind),) + tuple(a for a in args if a[0] != '*'), None, site), st)
    return f


def f_chain(ip, args, kws, st, site):
    vals = []
    for a in args:
        sp = ip.iterate(a, st, site) if a[0] != '*' else ('unknown',)
        if sp[0] != 'known':
            return ok(ip.fresh('ext', (K('chain'),) + tuple(x for x in args if x[0] != '*'), None, site), st)
        vals += sp[1]
    return ok(T(*vals), st)


def f_wraps(ip, args, kws, st, site):
    return ok(('D', 'wraps'), st)


def f_partial(ip, args, kws, st, site):
    return ok(('D', 'partial', args[0], tuple(args[1:]), tuple(kws)), st)


def f_lru(ip, args, kws, st, site):
    ip.note('memoised function')
    if args and args[0][0] in ('F', 'B', 'D'):
        return ok(args[0], st)
    return ok(('D', 'wraps'), st)


def f_cached_property(ip, args, kws, st, site):
    return ok(('D', 'prop', args[0], None), st)


def f_contextmanager(ip, args, kws, st, site):
    return ok(('D', 'cm', args[0]), st)


def f_suppress(ip, args, kws, st, site):
    return ok(('CMX', 'suppress', tuple(args)), st)


def f_closing(ip, args, kws, st, site):
    return ok(('CMX', 'closing', tuple(args)), st)


def f_nullcontext(ip, args, kws, st, site):
    return ok(('CMX', 'null', tuple(args)), st)


def f_ordered(ip, args, kws, st, site):
    return dict_new(ip, st, site, args, kws)


def f_defaultdict(ip, args, kws, st, site):
    out = []
    for o, d, s in dict_new(ip, st, site, args[1:], kws):
        if o and args:
            s.put(d, s.obj(d).meta(factory=args[0]))
        out.append((o, d, s))
    return out


def f_deque(ip, args, kws, st, site):
    return BUILTINS['list'](ip, args[:1], [], st, site)


def f_namedtuple(ip, args, kws, st, site):
    name = args[0][2] if is_k(args[0], str) else 'namedtuple'
    f = args[1]
    if is_k(f, str):
        fields = f[2].replace(',', ' ').split()
    else:
        sp = ip.iterate(f, st, site)
        fields = [x[2] for x in sp[1]] if sp[0] == 'known' and all(is_k(x, str) for x in sp[1]) else []
    ds = arg(args, kws, None, 'defaults', T())
    dv = ds[1] if ds[0] == 'T' else ()
    r = ip.newref('class:%s@%s' % (name, site))
    st.put(r, HObj('class', None, {'_fields': T(*[K(x) for x in fields])}, {
        'bases': (), 'name': name, 'qual': name, 'mod': site.split(':')[0], 'nt': tuple(fields), 'ntdef': tuple(dv)}))
    return ok(r, st)


def f_attrs(ip, args, kws, st, site):
    if args and args[0][0] == 'O':
        c = args[0]
        o = st.obj(c)
        fs = []
        f = dict(o.f)
        for b in reversed(ip.mro(c, st)):
            if b[0] != 'O':
                continue
            for k, v in st.obj(b).f.items():
                if v[0] == 'ATTRIB':
                    fs = [x for x in fs if x[0] != k]
                    fs.append((k, v[1], v[2]))
        for k, d, fac in fs:
            if f.get(k, ('',))[0] == 'ATTRIB':
                f.pop(k)
        m = dict(o.m)
        m['attrs'] = tuple(fs)
        st.put(c, HObj('class', None, f, m))
        return ok(c, st)
    return ok(X('attr.s'), st)


def f_attrib(ip, args, kws, st, site):
    return ok(('ATTRIB', arg(args, kws, 0, 'default', ('NODEFAULT',)), arg(args, kws, None, 'factory', ('NODEFAULT',))), st)


def f_asdict(ip, args, kws, st, site):
    flt = arg(args, kws, None, 'filter')
    c = args[0]
    o = st.obj(c) if c[0] == 'O' else None
    if o is None or not isinstance(o.cls, tuple) or o.cls[0] != 'O' or 'attrs' not in st.obj(o.cls).m:
        return ok(ip.fresh('asdict', tuple(args), None, site), st)
    cur = [((), st)]
    for k, _, _ in st.obj(o.cls).m['attrs']:
        nxt = []
        for items, s in cur:
            v = s.obj(c).f.get(k, NONE)
            if flt != NONE:
                alts = []
                for ok1, r, s1 in ip.call(flt, [S('attribute', (K(k),)), v], [], s, site):
                    if ok1:
                        alts.extend(ip.test(r, s1))
            else:
                alts = [(True, s)]
            for b, s1 in alts:
                if not b:
                    nxt.append((items, s1))
                    continue
                vo = s1.obj(v) if v[0] == 'O' else None
                if vo is not None and vo.kind == 'inst':
                    for ok2, d, s2 in f_asdict(ip, [v], kws, s1, site + '/' + k):
                        nxt.append((items + ((K(k), d),), s2))
                else:
                    nxt.append((items + ((K(k), v),), s1))
        cur = nxt
    out = []
    for items, s in cur:
        out.append((True, ip.alloc(s, 'dict@' + site, HObj('dict', 'dict', {}, {'items': items})), s))
    return out


def f_bytesio(ip, args, kws, st, site):
    return ok(ext_obj(ip, st, 'io.BytesIO', site, v=content(args[0], st) if args else K(b''), pos=ZERO), st)


def f_copy(ip, args, kws, st, site):
    v = args[0]
    o = st.obj(v) if v[0] == 'O' else None
    if o is not None and o.kind in ('dict', 'list', 'set', 'inst'):
        m = {k: x for k, x in o.m.items() if k != 'of'}
        return ok(ip.alloc(st, 'copy@' + site, HObj(o.kind, o.cls, dict(o.f), m)), st)
    return ok(v, st)


def f_socket(ip, args, kws, st, site):
    # out of descriptors
    return maybe(ip, st, site, 'builtins.OSError', ext_obj(ip, st, 'socket.socket', site))


def f_create_connection(ip, args, kws, st, site):
    return maybe(ip, st, site, 'builtins.OSError', ext_obj(ip, st, 'socket.socket', site))


def f_operator(name):
    def f(ip, args, kws, st, site):
        return ip.models.binop(ip, name, args[0], args[1], st, site)
    return f


def f_itemgetter(ip, args, kws, st, site):
    return ok(('D', 'itemgetter', tuple(args)), st)


def f_attrgetter(ip, args, kws, st, site):
    return ok(('D', 'attrgetter', tuple(args)), st)


def f_json_dumps(ip, args, kws, st, site):
    return ok(S('json', (args[0],), 'str'), st)


FUNCS = {
    'struct.pack': f_pack, 'struct.unpack': f_unpack, 'struct.unpack_from': f_unpack_from, 'struct.calcsize': f_calcsize,
    'struct.Struct': f_Struct, 'struct.iter_unpack': f_fresh(None),
    'asyncio.ensure_future': f_ensure_future, 'asyncio.create_task': f_ensure_future,
    'asyncio.run_coroutine_threadsafe': f_threadsafe, 'asyncio.new_event_loop': f_loop, 'asyncio.get_event_loop': f_loop,
    'asyncio.get_running_loop': f_loop, 'asyncio.wrap_future': f_wrap_future, 'asyncio.shield': f_wrap_future,
    'asyncio.run': f_run, 'asyncio.timeout': f_timeout, 'asyncio.Event': f_aio_event, 'asyncio.Lock': ctor('asyncio.Lock'),
    'asyncio.Queue': ctor('asyncio.Queue', 'maxsize', maxsize=ZERO), 'asyncio.Semaphore': ctor('asyncio.Semaphore'),
    'asyncio.Condition': ctor('asyncio.Condition'), 'asyncio.Future': ctor('asyncio.Future'),
    'asyncio.set_event_loop': f_none, 'asyncio.set_event_loop_policy': f_none, 'asyncio.iscoroutine':
        lambda ip, a, k, st, site: ok(K(a[0][0] == 'CO'), st),
    'asyncio.iscoroutinefunction': lambda ip, a, k, st, site: ok(K(a[0][0] in 'FB' and 'async' in repr(a[0])), st),
    'threading.Thread': f_thread, 'threading.Timer': f_timer, 'threading.Lock': ctor('threading.Lock'),
    'threading.RLock': ctor('threading.RLock'), 'threading.Event': f_thr_event, 'threading.local': f_thr_local,
    'threading.Condition': ctor('threading.Condition'), 'threading.Semaphore': ctor('threading.Semaphore'),
    'threading.BoundedSemaphore': ctor('threading.BoundedSemaphore'), 'threading.get_ident': f_fresh('int'),
    'threading.current_thread': ctor('threading.Thread'),
    'concurrent.futures.ThreadPoolExecutor': ctor('concurrent.futures.ThreadPoolExecutor', 'max_workers'),
    'concurrent.futures.Future': ctor('asyncio.Future'),
    'queue.Queue': ctor('queue.Queue', 'maxsize', maxsize=ZERO), 'queue.LifoQueue': ctor('queue.LifoQueue', 'maxsize', maxsize=ZERO),
    'queue.PriorityQueue': ctor('queue.PriorityQueue', 'maxsize', maxsize=ZERO), 'queue.SimpleQueue': ctor('queue.SimpleQueue'),
    'socket.socket': f_socket, 'socket.create_connection': f_create_connection,
    'socket.gethostname': f_fresh('str'), 'socket.gethostbyname': f_fresh('str'),
    'selectors.DefaultSelector': ctor('selectors.DefaultSelector'),
    'requests.session': lambda ip, a, k, st, site: ok(ext_obj(ip, st, 'requests.session', site, headers=ip.alloc(
        st, 'headers@' + site, HObj('dict', 'dict', {}, {'items': (), 'open': True}))), st),
    'time.time': f_fresh('float'), 'time.monotonic': f_fresh('float'), 'time.perf_counter': f_fresh('float'),
    'time.sleep': f_none, 'random.randint': f_randint, 'random.randrange': f_randrange, 'random.random': f_fresh('float'),
    'random.getrandbits': f_randrange, 'os.getpid': f_fresh('int'), 'uuid.uuid4': f_fresh(None),
    'itertools.count': f_count, 'itertools.cycle': f_cycle, 'itertools.chain': f_chain, 'itertools.islice': f_lazy('islice'),
    'itertools.repeat': f_lazy('repeat'), 'functools.wraps': f_wraps, 'functools.partial': f_partial,
    'functools.lru_cache': f_lru, 'functools.cache': f_lru, 'functools.total_ordering': f_identity,
    'functools.cached_property': f_cached_property, 'functools.reduce': f_lazy('reduce'),
    'contextlib.contextmanager': f_contextmanager, 'contextlib.suppress': f_suppress, 'contextlib.closing': f_closing,
    'contextlib.nullcontext': f_nullcontext, 'collections.OrderedDict': f_ordered, 'collections.defaultdict': f_defaultdict,
    'collections.deque': f_deque, 'collections.namedtuple': f_namedtuple, 'attr.s': f_attrs, 'attr.ib': f_attrib,
    'attr.asdict': f_asdict, 'enum.unique': f_identity, 'enum.auto': f_fresh('int'), 'io.BytesIO': f_bytesio,
    'copy.copy': f_copy, 'copy.deepcopy': f_copy, 'six.u': f_identity, 'six.b': lambda ip, a, k, st, site: text_method(
        ip, a[0], 'encode', [K('latin-1')], [], st, site), 'abc.abstractmethod': f_identity,
    'typing.cast': lambda ip, a, k, st, site: ok(a[1], st), 'typing.NamedTuple': f_namedtuple,
    'operator.add': f_operator('Add'), 'operator.sub': f_operator('Sub'), 'operator.mul': f_operator('Mult'),
    'operator.itemgetter': f_itemgetter, 'operator.attrgetter': f_attrgetter, 'json.dumps': f_json_dumps,
    'json.loads': lambda ip, a, k, st, site: maybe(ip, st, site, 'builtins.ValueError', ip.fresh('json', (a[0],), None, site)),
    'six.text_type': BUILTINS['str'], 'six.ensure_binary': lambda ip, a, k, st, site: text_method(ip, a[0], 'encode', [], [], st, site)
        if typeof(content(a[0], st)) == 'str' else ok(a[0], st),
    'sys.exc_info': lambda ip, a, k, st, site: ok(T(NONE, NONE, NONE), st),
}
for _n in ASYNC_FUNCS:
    FUNCS[_n] = to_aw(_n)

NOOP = ('logging.', 'traceback.', 'warnings.', 'gc.', 'atexit.', 'sys.std', 'opentracing.logs')


def ext_call(ip, dotted, args, kws, st, site):
    r = ip.mon.ext_call(ip, dotted, args, kws, st, site)
    if r is not None:
        return r
    if dotted.startswith('builtins.'):
        name = dotted[9:]
        f = BUILTINS.get(name)
        if f is not None:
            if any(a[0] == '*' for a in args):
                flat = []
                for a in args:
                    sp = ip.iterate(a[1], st, site) if a[0] == '*' else ('known', [a])
                    if sp[0] != 'known':
                        if name in ('zip', 'map', 'print', 'max', 'min'):
                            return ok(ip.fresh('ext', (K(name), a[1]), None, site), st)
                        ip.note('star argument of %s' % name)
                        return ok(ip.fresh('ext', (K(name), a[1]), None, site), st)
                    flat += sp[1]
                args = flat
            try:
                return f(ip, args, kws, st, site)
            except IndexError:
                return [ip.raise_('builtins.TypeError', st, site)]
        if '.' in name:
            t, m = name.split('.', 1)
            if args and args[0][0] == 'O' and st.obj(args[0]) is not None:
                g = CONTAINER.get((st.obj(args[0]).kind, m))
                if g:
                    return g(ip, args[0], args[1:], kws, st, site)
            if t in ('str', 'bytes', 'int') and args:
                return ip.ext_method(args[0], m, args[1:], kws, st, site)
            if t == 'dict' and m == 'fromkeys':
                sp = ip.iterate(args[0], st, site)
                if sp[0] == 'known':
                    dv = args[1] if len(args) > 1 else NONE
                    return ok(ip.alloc(st, 'dict@' + site, HObj('dict', 'dict', {}, {'items': tuple((k, dv) for k in sp[1])})), st)
            if t == 'object' and m in ('__init__',):
                return ok(NONE, st)
            if t == 'object' and m == '__setattr__' and is_k(args[1], str):
                ip.mon.store_attr(ip, args[0], args[1][2], args[2], st)
                st.put(args[0], st.obj(args[0]).set(args[1][2], args[2]))
                return ok(NONE, st)
            if t == 'object' and m == '__new__' and args[0][0] == 'O':
                return ok(ip.alloc(st, 'inst:%s@%s' % (ip.cls_name(args[0], st), site), HObj('inst', args[0], {}, {})), st)
            if t == 'object' and m == '__getattribute__':
                return ip.getattr_(args[0], args[1][2], st, site)
    rc = real_class(dotted)
    if rc is not None and issubclass(rc, BaseException):
        return ok(('XC', X(dotted), (), True, ('args',) + tuple(a for a in args if a[0] != '*')), st)
    f = FUNCS.get(dotted)
    if f is not None:
        try:
            return f(ip, args, kws, st, site)
        except IndexError:
            return [ip.raise_('builtins.TypeError', st, site)]
    if dotted.startswith(NOOP):
        if dotted.startswith('traceback.format'):
            return ok(S('text', (K(dotted),), 'str'), st)
        if dotted == 'logging.getLogger':
            return ok(X('logging.logger!'), st)
        return ok(NONE, st)
    if dotted.endswith('!') or dotted.startswith('uvloop'):
        return ok(ip.fresh('ext', (K(dotted),), None, site), st)
    # a class or function of a known module: an object of its type
    ip.note('call of %s not modelled' % dotted)
    typ = dotted if rc is not None and not dotted.startswith('builtins.') else None
    return ok(ip.fresh('ext', (K(dotted),) + tuple(a for a in args if a[0] != '*'), typ, site), st)
