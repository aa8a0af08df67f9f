"""C33-C37: trace context on the wire, derived spans, recorded spans, request ids."""
from .base import *
from .mesh import MeshMon
from .mesh import SETUP as MESH_SETUP
from .server import Reply, take
from .bclient import REQF
from .pool import QUEUES
from pysa.m_lib import arg, ext_obj

SETUP = MESH_SETUP + '''
import opentracing
from opentracing import Format, Reference, ReferenceType
from mytracer import MyTracer, MySpan, SpanContext, tracer, new_span, child_span_of, follows_span_from
from anthunder.protocol import SofaHeader, BoltRequest
from anthunder.protocol.constants import PTYPE
from anthunder.command.heartbeat import HeartbeatRequest
from anthunder.helpers.request_id import RequestId
def ctx(tid, rid, items): return SpanContext(sofaTraceId=tid, sofaRpcId=rid, **items)
def texts(c): return [(k, str(v)) for k, v in c.baggage.items()]
def header(c): return SofaHeader.build_header(c, 'com.svc.A', 'method', target_app='t', uid='u')
def extract(h): return tracer.extract(Format.TEXT_MAP, h)
def inject(c, carrier): return tracer.inject(c, Format.TEXT_MAP, carrier)
def start(kw): return tracer.start_span('op', **kw)
def span_of(c): return tracer.start_span('op', child_of=c)
def d_child_span(s): return tracer.start_span('d', child_of=s)
def d_child_ctx(s): return tracer.start_span('d', child_of=s.context)
def d_child_ref(s): return tracer.start_span('d', references=Reference(ReferenceType.CHILD_OF, s.context))
def d_child_refs(s): return tracer.start_span('d', references=[Reference(ReferenceType.CHILD_OF, s.context)])
def d_child_fn(s): return tracer.start_span('d', references=[opentracing.child_of(s.context)])
def d_child_help(s): return child_span_of(s)
def d_child_help2(s): return child_span_of(s, 'd', tag='t')
def d_follow_ref(s): return tracer.start_span('d', references=Reference(ReferenceType.FOLLOWS_FROM, s.context))
def d_follow_refs(s): return tracer.start_span('d', references=[Reference(ReferenceType.FOLLOWS_FROM, s.context)])
def d_follow_fn(s): return tracer.start_span('d', references=[opentracing.follows_from(s.context)])
def d_follow_help(s): return follows_span_from(s)
def d_follow_help2(s): return follows_span_from(s, 'd', tag='t')
def of_ctx(c): return MySpan(tracer, c)
def stexts(s): return texts(s.context)
def op_name(s): return s.operation_name
def block(s, body):
    with s:
        body()
def block_as(s, body):
    with s as t:
        body()
        return t
def block_two(s, body):
    with s:
        for x in (1, 2):
            body()
            break
def begin(kw): return tracer.start_span(**kw)
def begin_new(n, tags): return new_span(n, **tags)
def begin_child(s, n, tags): return child_span_of(s, n, **tags)
def begin_follow(s, n, tags): return follows_span_from(s, n, **tags)
def finish(s): s.finish()
def draw(): return next(RequestId)
def draw_request(): return BoltRequest.new_request(SofaHeader(), b'x').request_id
def draw_oneway(): return BoltRequest.new_request(SofaHeader(), b'x', ptype=PTYPE.ONEWAY, timeout_ms=1000).request_id
def draw_heartbeat(): return HeartbeatRequest.new_request().request_id
def call_sync(c, ctx): return c.invoke_sync('com.svc.A', 'method', b'x', spanctx=ctx, timeout_ms=1000)
def call_oneway(c, ctx): return c.invoke_oneway('com.svc.A', 'method', b'x', spanctx=ctx)
def call_async(c, ctx): return c.invoke_async('com.svc.A', 'method', b'x', spanctx=ctx, timeout_ms=1000)
'''
HEADER_FILE = 'anthunder/protocol/_sofa_header.py'
TRACER = 'mytracer/tracer.py'
PRE = 'rpc_trace_context.'
ITEM = sym('item', 'str')
# custom items may have any name, also one that means something to the objects they pass through
NAMES = ('custom', 'a.b', 'X-Some_ID9', 'prefix', 'expand', 'items', 'baggage', '_private', '0', 'sofaRpcIdOther', 'rpc_trace_context.x',
         ' spaced ', 'end.', 'm\xfcnze', 'service')
IDS = ('1', '0.3', '1.2.3')


def mk(ip, st, entries, site='<rule>'):
    return ip.alloc(st, 'dict@' + site, HObj('dict', 'dict', {}, {'items': tuple(entries)}))


def one(r, rs, what):
    good = [(v, s) for ok, v, s in rs if ok]
    if not good:
        ok, v, s = rs[0]
        raise Broken('no path of %s returns' % what)
    return good


def pairs(v, st):
    """[(key, value)] of a list of tuples, or None"""
    o = st.obj(v) if v[0] == 'O' else None
    if o is None or o.kind != 'list' or o.m.get('open') or o.m.get('gen'):
        return None
    out = []
    for x in o.m.get('items') or ():
        if x[0] != 'T' or len(x[1]) != 2:
            return None
        out.append(tuple(x[1]))
    return out


def dict_items(v, st):
    o = st.obj(v) if v[0] == 'O' else None
    if o is None or o.kind not in ('dict', 'inst') or o.m.get('open') or o.m.get('gen'):
        return None
    return list(o.m.get('items') or ())


def baggage(sc, st, c):
    """the baggage of a context as text, with the state it was read in"""
    rs = sc.run('texts', st=st, c=c)
    if len(rs) != 1 or not rs[0][0]:
        return None, st
    return pairs(rs[0][1], rs[0][2]), rs[0][2]


def read_map(ip, parts, st):
    """(key, value) pairs of a header map in its published encoding, or None"""
    parts = [unwrap(p) for p in parts]
    out, cur = [], []
    while parts:
        n = take(ip, parts, 4)
        if n is None:
            return None
        n = unwrap(n)
        c, k = const(n)
        if c:
            got = b''
            while len(got) < k:
                if not parts or parts[0][0] != 'K':
                    return None
                p = parts.pop(0)[2]
                need = k - len(got)
                got += p[:need]
                if p[need:]:
                    parts.insert(0, K(p[need:]))
            cur.append(K(got.decode('utf-8')))
        else:
            got, p = [], None
            while parts and (p is None or not same(ip, lin_val(ip.length_of(p, st)), n, st)):
                got.append(parts.pop(0))
                p = cat(got, 'bytes')
            if p is None or not same(ip, lin_val(ip.length_of(p, st)), n, st):
                return None
            if p[0] == 'S' and p[1] == 'enc':
                p = p[2][0]
            cur.append(p)
        if len(cur) == 2:
            out.append(tuple(cur))
            cur = []
    return out if not cur else None


class Frames(MeshMon):
    """the frames a client sends; sending then fails"""
    on = False

    def ext_call(self, ip, name, args, kw, st, site):
        if self.on:
            t, _, m = name.rpartition('.')
            if t in QUEUES:     # every connection is a new one: it makes no difference to what is sent
                if m in ('get', 'get_nowait'):
                    return [ip.raise_('queue.Empty', st, site)]
                if m == 'qsize':
                    return [(True, ZERO, st)]
                if m in ('empty', 'full'):
                    return [(True, K(m == 'empty'), st)]
                return [(True, NONE, st)]
            if name in ('socket.socket.send', 'socket.socket.sendall', 'asyncio.StreamWriter.write', 'asyncio.StreamWriter.writelines'):
                d = args[1]
                o = st.obj(d) if d[0] == 'O' else None
                if o is not None and o.kind == 'ext':
                    d = o.f.get('v', o.f.get('.v', d))
                self.frames.append((site, unwrap(d), st.clone()))
                return [(False, ip.any_exc('builtins.OSError', ('send',)), st)]
            if name in ('socket.socket.connect', 'socket.socket.setsockopt'):
                return [(True, NONE, st)]
            if m == 'select' and name.startswith('selectors'):
                return None
        return MeshMon.ext_call(self, ip, name, args, kw, st, site)

    def spawn(self, ip, aw, st, how, site):
        return None if self.on and not (aw[0] == 'CO' and '_recv' in repr(aw[1])) else MeshMon.spawn(self, ip, aw, st, how, site)


def context(sc, rid, names, st=None):
    st = st or sc.state()
    items = mk(sc.ip, st, [(K(n), ITEM) for n in names])
    st.rs['items'] = items
    (c, st), = one(None, sc.run('ctx', st=st, tid=K('0a1b'), rid=K(rid), items=items), 'SpanContext')
    st.rs = dict(st.rs, ctx=c)
    want = [(K(n), ITEM) for n in names] + [(K('sofaTraceId'), K('0a1b')), (K('sofaRpcId'), K(rid))]
    return c, st, want


def agree(got, want):
    return got is not None and len(got) == len(want) and sorted(map(repr, got)) == sorted(map(repr, want))


def say(ps):
    return 'something unknown' if ps is None else '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in ps)


def c33(r, tier):
    jobs = [c33_maps] + [lambda q, k=k, h=h: c33_frames(q, k, h) for k, h in (('sync', 'call_sync'), ('sync', 'call_oneway'),
                                                                              ('aio', 'call_sync'), ('aio', 'call_oneway'), ('aio', 'call_async'))]
    from .server import aio, sock
    jobs += [lambda q: aio('C33')(q, tier), lambda q: sock('C33')(q, tier)]
    r.parallel(jobs)


def c33_maps(r):
    for rid in IDS:
        for names in ((), NAMES):
            mon = Keep()
            sc = Scenario('trace', SETUP, mon, thread='caller')
            c, st0, want = context(sc, rid, names)
            wire = [(K(PRE + k[2]), v) for k, v in want]
            # header -> extract
            hs = sc.run('header', st=st0.clone(), c=c)
            for ok, h, st in hs:
                items = dict_items(h, st) if ok else None
                got = [(k, v) for k, v in items if k[0] != 'K' or k[2].startswith(PRE)] if items is not None else None
                if not r.check(ok and agree(got, wire), 'every baggage item is put into the request header', HEADER_FILE if ok else exc_site(h, st),
                               'the header of a call with baggage %s holds %s' % (say(want), say(got)) if ok else
                               'building the header of a call with baggage %s raises %s' % (say(want), exc_name(sc.ip, h, st)), st):
                    continue
                st.rs = {'ctx': c, 'h': h}
                back(r, sc, h, st, want, 'the header of a call')
            # inject -> extract, into an empty and into a used carrier
            for used in ((), ((K('uid'), sym('uid', 'str')), (K('rpc_trace_contextual'), sym('x', 'str')), (K('app.rpc_trace_context.x'), sym('x', 'str'))),
                         ((K(PRE + 'sofaRpcId'), K('9.9')), (K(PRE + 'sofaTraceId'), sym('x', 'str')))):
                st = st0.clone()
                carrier = mk(sc.ip, st, used)
                st.rs = {'ctx': c, 'h': carrier}
                for ok, v, s in sc.run('inject', st=st, c=c, carrier=carrier):
                    r.check(ok, 'injecting succeeds', TRACER if ok else exc_site(v, s), 'injecting raises %s' % (exc_name(sc.ip, v, s) if not ok else ''), s)
                    if ok:
                        got = dict_items(carrier, s)
                        other = [p for p in used if not p[0][2].startswith(PRE)]
                        keep = [p for p in got or () if p in other]
                        r.check(len(keep) == len(other), 'injecting leaves the other items of the carrier', TRACER, 'the carrier holds %s' % say(got), s)
                        s.rs = {'ctx': c, 'h': carrier}
                        back(r, sc, carrier, s, want, 'an injected carrier')
            r.ran(sc, 'maps %s %d' % (rid, len(names)), len(hs))


def back(r, sc, h, st, want, what):
    rs = sc.run('extract', st=st.clone(), h=h)
    for ok, v, s in rs:
        got = None
        if ok:
            s.rs = {'b': v}
            got, s = baggage(sc, s, v)
        r.check(ok and agree(got, want), 'what is extracted is what was put in', TRACER if ok else exc_site(v, s),
                '%s with baggage %s is extracted as %s' % (what, say(want), say(got)) if ok else 'extracting from %s raises %s' % (what, exc_name(sc.ip, v, s)), s)


def c33_frames(r, kind, how):
    mon = Frames('yes')
    mon.frames = []
    sc = Scenario('trace', SETUP, mon, thread='caller')
    cs = [(v, s) for ok, v, s in sc.run('client', kind=K(kind), app=K('app')) if ok]
    if not cs:
        raise Broken('no path builds a client')
    cl, st = cs[0]
    st.rs = {'cl': cl}
    c, st, want = context(sc, '1.2', NAMES[:3], st)
    mon.on = True
    outs = sc.run(how, st=st, c=cl, ctx=c)
    if not mon.frames:
        raise Broken('%s client: %s sends no frame' % (kind, how))
    wire = [(K(PRE + k[2]), v) for k, v in want]
    for site, data, s in mon.frames:
        f = Reply(sc.ip, data, s, REQF)
        got = None
        if f.ok:
            parts = list(f.rest)
            n = const(unwrap(f.f['class_len']))
            if n[0]:
                # drop the class name
                head = b''
                while parts and parts[0][0] == 'K' and len(head) < n[1]:
                    p = parts.pop(0)[2]
                    need = n[1] - len(head)
                    head += p[:need]
                    if p[need:]:
                        parts.insert(0, K(p[need:]))
                # and the content
                tail = K(b'x')
                if parts and parts[-1] == tail:
                    parts.pop()
                elif parts and parts[-1][0] == 'K' and parts[-1][2].endswith(b'x'):
                    parts[-1] = K(parts[-1][2][:-1])
                got = read_map(sc.ip, parts, s)
        if got is None:
            raise Broken('a frame sent at %s could not be read' % site)
        got = [(k, v) for k, v in got if k[0] != 'K' or k[2].startswith(PRE)]
        r.check(agree(got, wire), 'every frame sent carries the baggage of its call', site, 'a call with baggage %s sends %s' % (say(want), say(got)), s)
    r.ran(sc, '%s client %s' % (kind, how), len(outs), frames=len(mon.frames))


# ---------------------------------------------------------------------------- C34

CHILD = ('d_child_span', 'd_child_ctx', 'd_child_ref', 'd_child_refs', 'd_child_fn', 'd_child_help', 'd_child_help2')
FOLLOW = ('d_follow_ref', 'd_follow_refs', 'd_follow_fn', 'd_follow_help', 'd_follow_help2')


def segments(v):
    """the dot-separated parts of an id: constants, or terms whose text they are"""
    out = [()]
    for p in (v[2] if v[0] == 'S' and v[1] == 'cat' else [v]):
        if p[0] == 'K' and isinstance(p[2], str):
            ss = p[2].split('.')
            out[-1] += (ss[0],) if ss[0] else ()
            for x in ss[1:]:
                out.append((x,) if x else ())
        else:
            out[-1] += (p,)
    return out


def number(seg):
    """the number a segment is the text of, or None"""
    if len(seg) != 1:
        return None
    x = seg[0]
    if isinstance(x, str):
        return K(int(x)) if x.isdigit() else None
    if x[0] == 'S' and x[1] in ('str', 'fmt') and typeof(x[2][0]) == 'int':
        return x[2][0]
    return None


def item(ps, name):
    for k, v in ps or ():
        if k == K(name):
            return v
    return None


def derived(r, sc, how, parent, st, text='stexts'):
    """[(child, its baggage, the parent's baggage afterwards, state)]; None for a path that raises"""
    out = []
    for ok, v, s in sc.run(how, st=st, s=parent):
        if not ok:
            out.append((v, None, None, s))
            continue
        s.rs = dict(s.rs, got=v)
        res = []
        for x in (v, parent):
            rs = sc.run('stexts', st=s, s=x)
            res.append(pairs(rs[0][1], rs[0][2]) if len(rs) == 1 and rs[0][0] else None)
            s = rs[0][2] if len(rs) == 1 else s
        out.append((v, res[0], res[1], s))
    return out


def c34(r, tier):
    jobs = []
    for rid in ('1', '0.3', '1.2.3', 'x.5'):
        for names in ((), NAMES):
            jobs.append(lambda q, a=rid, b=names: c34_from(q, a, b))
    r.parallel(jobs)


def judge(r, sc, how, before, got, after, s, v, where=TRACER):
    kind = 'child' if '_child_' in how else 'follow-up'
    if not r.check(got is not None, 'every way of deriving a span works', where if got is None and v is None else (exc_site(v, s) if got is None else where),
                   'deriving a %s (%s) from %s raises %s' % (kind, how, say(before), exc_name(sc.ip, v, s) if got is None else ''), s):
        return False
    rest = lambda ps: sorted(repr(p) for p in ps if p[0] != K('sofaRpcId'))
    ok = r.check(rest(got) == rest(before) and len(got) == len(before), 'a derived span has the trace id and the items of the original', where,
                 'a %s (%s) of a span with baggage %s has %s' % (kind, how, say(before), say(got)), s)
    ok &= bool(r.check(after is not None and sorted(map(repr, after)) == sorted(map(repr, before)), 'deriving leaves the original as it was', where,
                       'after deriving a %s (%s) the baggage of the original is %s, it was %s' % (kind, how, say(after), say(before)), s))
    a, b = item(before, 'sofaRpcId'), item(got, 'sofaRpcId')
    good = False
    if a is not None and b is not None:
        a, b = segments(a), segments(b)
        if kind == 'child':
            good = b[:-1] == a and number(b[-1]) is not None
        else:
            n, m = number(a[-1]), number(b[-1])
            good = len(a) == len(b) and a[:-1] == b[:-1] and n is not None and m is not None and n != m
    ok &= bool(r.check(good, 'the id of a derived span is derived from the original\'s by the kind of reference', where,
                       'a %s (%s) of a span with baggage %s has %s' % (kind, how, say(before), say(got)), s))
    return ok


def c34_from(r, rid, names):
    sc = Scenario('trace', SETUP, Keep(), thread='caller')
    c, st0, want = context(sc, rid, names)
    (top, st0), = one(r, sc.run('of_ctx', st=st0, c=c), 'MySpan')
    n = 0
    for how in CHILD + FOLLOW:
        st = st0.clone()
        st.rs = dict(st.rs, top=top)
        for v, got, after, s in derived(r, sc, how, top, st):
            n += 1
            if not judge(r, sc, how, want, got, after, s, v):
                continue
            # and again from the derived span, twice
            for h2 in ('d_child_span', 'd_follow_ref', 'd_child_refs', 'd_follow_fn'):
                s2 = s.clone()
                s2.rs = dict(s2.rs, mid=v)
                for v2, got2, after2, s3 in derived(r, sc, h2, v, s2):
                    n += 1
                    judge(r, sc, h2, got, got2, after2, s3, v2)
            # the original keeps its baggage however often it is derived from, and so does what was derived
            for h2, h3 in (('d_child_span', 'd_child_refs'), ('d_follow_ref', 'd_follow_fn'), ('d_child_fn', 'd_follow_ref')):
                s2 = s.clone()
                s2.rs = dict(s2.rs, mid=v)
                for v2, got2, after2, s3 in derived(r, sc, h2, top, s2):
                    n += 1
                    if not judge(r, sc, h2, want, got2, after2, s3, v2):
                        continue
                    s3.rs = dict(s3.rs, mid2=v2)
                    for v3, got3, after3, s4 in derived(r, sc, h3, top, s3):
                        n += 1
                        judge(r, sc, h3, want, got3, after3, s4, v3)
                        for m, g in ((v, got), (v2, got2)):
                            (x, s5), = one(r, sc.run('stexts', st=s4.clone(), s=m), 'baggage')
                            x = pairs(x, s5)
                            r.check(x is not None and sorted(map(repr, x)) == sorted(map(repr, g)), 'a derived span keeps its baggage while others are derived', TRACER,
                                    'after deriving others (%s, %s) the baggage of a derived span (%s) is %s, it was %s' % (h2, h3, how, say(x or ()), say(g)), s5)
    r.ran(sc, 'derive %s %d' % (rid, len(names)), n)


# ---------------------------------------------------------------------------- C35

CNT = 'rules/trace.py:derivation'


class Shared(Keep):
    """what a derivation does with state that was there before it; other threads derive at the same time"""
    on = False

    def __init__(self):
        self.watch = set()      # (ref, attribute) of the counters
        self.boxes = {}         # containers changed -> sites
        self.pre = frozenset()

    def held(self, st):
        return [l for l in st.locks if l in self.pre]

    def any_value(self, ip, ref, name, site):
        return ip.fresh('shared', (ref, K(name)), 'int', site)

    def begin(self, ip, st):
        """the state in which some other derivations have been made"""
        self.pre = frozenset(('O', k) for k in list(st.heap) + list(ip.prog.base))
        for ref, name in sorted(self.watch, key=repr):
            if st.obj(ref) is not None:
                st.put(ref, st.obj(ref).set(name, self.any_value(ip, ref, name, 'start')))
        st.rs = dict(st.rs, secs=T(), bare=T())
        self.on = True

    def acquire(self, ip, lock, st, site):
        if not self.on or lock not in self.pre or st.locks.count(lock) != 1:
            return
        if len(self.held(st)) > 1:
            return
        vals = []
        for ref, name in sorted(self.watch, key=repr):
            if st.obj(ref) is None:
                continue
            u = self.any_value(ip, ref, name, site)
            st.put(ref, st.obj(ref).set(name, u))
            vals.append(T(ref, K(name), u))
        st.rs = dict(st.rs, cur=T(lock, *vals))

    def release(self, ip, lock, st, site):
        c = st.rs.get('cur')
        if not self.on or c is None or c[1][0] != lock or lock in st.locks:
            return
        for x in c[1][1:]:
            ref, name, u = x[1]
            st.rs = dict(st.rs, secs=T(*(st.rs['secs'][1] + (T(lock, ref, name, u, st.obj(ref).f.get(name[2], NONE) if st.obj(ref) is not None else NONE, K(site)),))))
        st.rs = {k: v for k, v in st.rs.items() if k != 'cur'}

    def load_attr(self, ip, ref, name, st):
        if self.on and (ref, name) in self.watch and not self.held(st):
            return [(True, ip.fresh('shared', (ref, K(name), K(len(st.trace) if hasattr(st, 'trace') else 0)), 'int', 'unlocked'), st)]

    def store_attr(self, ip, ref, name, val, st):
        if not self.on or ref not in self.pre:
            return
        old = st.obj(ref).f.get(name)
        if old is not None and typeof(old) in ('int', 'bool'):
            self.watch.add((ref, name))
        if not self.held(st):
            st.rs = dict(st.rs, bare=T(*(st.rs['bare'][1] + (T(ref, K(name)),))))

    def dict_event(self, ip, op, ref, key, val, st, site):
        if self.on and ref in self.pre and op in ('set', 'del', 'pop', 'append', 'remove', 'add', 'setdefault', 'clear', 'popitem'):
            if not self.held(st):
                st.rs = dict(st.rs, bare=T(*(st.rs['bare'][1] + (T(ref, K(site)),))))
            self.boxes[ref] = site


STEPS = ('d_child_span', 'd_follow_ref')


def c35(r, tier):
    depth = 5 if tier == 'thorough' else 4
    jobs = [lambda q, a=rid, b=via: c35_orders(q, a, b, depth) for rid in ('1', '0.3', 'x.5', '1.2.3.4') for via in VIA]
    jobs += [lambda q, a=rid, b=via: c35_threads(q, a, b) for rid in ('1', '0.3', '1.2.3.4') for via in VIA]
    r.parallel(jobs)


# what the span is that others are derived from: made from a context, or derived itself
VIA = ((), ('d_child_span',), ('d_child_refs', 'd_follow_ref'), ('d_follow_fn',), ('d_child_span', 'd_child_span'))


def parent(r, sc, st, rid, via):
    c, st, want = context(sc, rid, (), st)
    (top, st), = one(r, sc.run('of_ctx', st=st, c=c), 'MySpan')
    line = (top,)
    for how in via:
        st.rs = dict(st.rs, line=T(*line))
        (top, st), = one(r, sc.run(how, st=st, s=top), how)
        line += (top,)
    st.rs = {'top': top}
    rs = sc.run('stexts', st=st, s=top)
    return top, st, item(pairs(rs[0][1], rs[0][2]), 'sofaRpcId')


def c35_orders(r, rid, via, depth):
    """every sequence of up to `depth` derivations: children of one span, follow-ups of what was derived"""
    sc = Scenario('trace', SETUP, Keep(), thread='caller')
    top, st0, own = parent(r, sc, sc.state(), rid, via)
    rid = show(own)
    st0.rs = dict(st0.rs, top=top, kids=T(), ids=T())
    todo, n = [(st0, ())], 0
    while todo:
        st, hist = todo.pop()
        if len(hist) == depth:
            continue
        kids = st.rs['kids'][1]
        for i in range(-1, len(kids)):
            # two ways of making a child in turn
            how = ('d_child_span', 'd_child_refs')[len(hist) % 2] if i < 0 else ('d_follow_ref', 'd_follow_fn')[i % 2]
            s0 = st.clone()
            for v, got, after, s in derived(r, sc, how, top if i < 0 else kids[i], s0):
                n += 1
                h = hist + ('child' if i < 0 else 'follow-up of #%d' % (i + 1),)
                if got is None:
                    r.fail('every derivation succeeds', exc_site(v, s), 'deriving %s raises %s' % (' / '.join(h), exc_name(sc.ip, v, s)), s)
                    continue
                me = item(got, 'sofaRpcId')
                clash = [j for j, x in enumerate(s.rs['ids'][1]) if not apart(sc.ip, x, me, s)]
                r.check(not clash, 'ids derived one after the other are distinct', 'mytracer/_rpc_id.py',
                        'after %s of a span with id %s, #%s and the last have the ids %s' % (
                            ' / '.join(h), rid, ','.join(str(j + 1) for j in clash), ' and '.join(show(x) for x in [s.rs['ids'][1][j] for j in clash] + [me])), s)
                s.rs = dict(s.rs, kids=T(*(s.rs['kids'][1] + (v,))), ids=T(*(s.rs['ids'][1] + (me,))))
                todo.append((s, h))
    r.ran(sc, 'orders of derivation from %s %s' % (rid, ' '.join(via)), n, depth=depth)


def apart(ip, a, b, st):
    """are two ids certainly different texts"""
    if a is None or b is None:
        return False
    x, y = segments(a), segments(b)
    if len(x) != len(y):
        return True
    for p, q in zip(x, y):
        if p == q:
            continue
        m, n = number(p), number(q)
        if m is None or n is None:
            if all(isinstance(i, str) for i in p + q):
                return True
            continue
        d = lin_add(lin_of(m), lin_of(n), -1) if lin_of(m) is not None and lin_of(n) is not None else None
        if d is not None and set(d) == {None}:
            return True
        if m != n and counter(m) is not None and counter(m) == counter(n):
            return True
    return False


def counter(t):
    """the endless counter a number was drawn from, or None"""
    if t[0] == 'S' and t[1] == 'next' and t[2][0][0] == 'S' and t[2][0][1] == 'lazy' and t[2][0][2][0] == 'count':
        step = const(t[2][0][2][2])
        if step[0] and isinstance(step[1], int) and step[1] > 0:
            return t[2][0]
    return None


def c35_threads(r, rid, via):
    """one derivation among any number of others, made before it and at the same time"""
    mon = Shared()
    for attempt in range(4):
        mon.on = False
        known = set(mon.watch)
        sc = Scenario('trace', SETUP, mon, thread='caller')
        top, st0, own = parent(r, sc, sc.state(), rid, via)
        # a child of it and a follow-up of that child
        (kid, st0), = one(r, sc.run('d_child_span', st=st0, s=top), 'child')
        st0.rs = dict(st0.rs, kid=kid)
        (fol, st0), = one(r, sc.run('d_follow_ref', st=st0, s=kid), 'follow-up')
        st0.rs = dict(st0.rs, fol=fol)
        res, n = [], 0
        for how, who in (('d_child_span', top), ('d_child_refs', top), ('d_follow_ref', kid), ('d_follow_fn', fol)):
            st = st0.clone()
            mon.begin(sc.ip, st)
            outs = sc.run(how, st=st, s=who)
            mon.on = False
            for ok, v, s in outs:
                n += 1
                if not ok:
                    r.fail('every derivation succeeds', exc_site(v, s), 'deriving (%s) raises %s' % (how, exc_name(sc.ip, v, s)), s)
                    continue
                s.rs = dict(s.rs, got=v)
                rs = sc.run('stexts', st=s, s=v)
                res.append((how, item(pairs(rs[0][1], rs[0][2]), 'sofaRpcId'), s))
        if mon.watch == known:
            break
    seen = []
    for how, me, s in res:
        if me is None:
            raise Broken('the id of a derived span is not known')
        got = verdict(sc.ip, mon, me, s)
        if got[0] == 'box':
            r.ok('the id is given out under a lock that is there before')
            continue
        if not r.check(got[0] != 'no', 'the number of a derived span is drawn in one step from a counter that only grows', 'mytracer/_rpc_id.py',
                       'a span derived (%s) from one with id %s gets the id %s: %s' % (how, rid, show(me), got[1]), s):
            continue
        for h2, g2 in seen:
            good = g2[:2] == got[:2]
            if good and got[0] == 'ctr':
                good = got[2] + g2[3] - got[3] > 0 and g2[2] + got[3] - g2[3] > 0
            r.check(good, 'every derivation from one span draws from the same counter', 'mytracer/_rpc_id.py',
                    '%s and %s do not draw their numbers from one counter under one lock: %s, %s' % (how, h2, show(got[1]), show(g2[1])), s)
        seen.append((how, got))
    r.ran(sc, 'derivation from %s %s among others' % (rid, ' '.join(via)), n, counters=len(mon.watch))


def verdict(ip, mon, me, st):
    t = number(segments(me)[-1])
    if t is None:
        return 'no', 'its last part is not a number'
    bare = [x for x in st.rs['bare'][1]]
    f = lin_of(t)
    if f is not None and set(f) <= {None}:
        if mon.boxes and not bare and not mon.watch:
            return 'box', None
        return 'no', 'it does not depend on what was derived before'
    if f is None or len([k for k in f if k is not None]) != 1:
        return 'no', 'it is not a count'
    u, = [k for k in f if k is not None]
    if f[u] != 1:
        return 'no', 'it is not a count'
    d = f.get(None, 0)
    if counter(u) is not None:
        return 'next', counter(u)
    for x in st.rs['secs'][1]:
        lock, ref, name, v, end, site = x[1]
        g = lin_of(end)
        if v == u:
            e = lin_add(g, lin_of(u), -1) if g is not None else None
            if e is None or set(e) - {None} or e.get(None, 0) <= 0:
                return 'no', 'the counter %s is left at %s, not beyond what it was' % (name[2], show(end))
            if any(b[1][0] == ref and b[1][1] == name for b in bare):
                return 'no', 'the counter %s is also changed without the lock' % name[2]
            return 'ctr', T(lock, ref, name), e.get(None, 0), d
    return 'no', 'it is read and advanced without holding a lock across both' if bare or u[1] == 'shared' else 'it is not drawn from a counter of the span'


# ---------------------------------------------------------------------------- C36

SPAN = 'mytracer/span.py'
CLOCKS = ('time.time', 'time.monotonic', 'time.perf_counter', 'time.time_ns', 'time.monotonic_ns', 'datetime.datetime.now', 'datetime.datetime.utcnow')
NAME, START = sym('name', 'str'), sym('start', 'float')
TAGS = ((K('a'), sym('a')), (K('b'), NONE), (K('c'), K(0)), (K('d'), K('')), (K('error'), K(False)))


class Block(Keep):
    """the clock, and a body that ends in some way"""
    how = None

    def ext_call(self, ip, name, args, kw, st, site):
        if name in CLOCKS:
            when = 'after' if 'ended' in st.rs else 'before'
            return [(True, S('clock', (K(when), ('@', site, ip.ctxid)), 'float'), st)]
        if name == 'call:' and args[0] == sym('body'):
            st.rs = dict(st.rs, ended=TRUE)
            return [(True, NONE, st) if self.how is None else (False, self.how, st)]


def has(st, span, test):
    """does an attribute of the span - or what it holds directly - satisfy the test"""
    o = st.obj(span)
    return any(test(v) for k, v in o.f.items())


def holds_tags(st, span, tags):
    def test(v):
        it = dict_items(v, st) if v[0] == 'O' else None
        return it is not None and all(t in it for t in tags)
    return not tags or has(st, span, test)


def c36(r, tier):
    jobs = [lambda q, a=w, b=t, c=tg: c36_start(q, a, b, c)
            for w in ('begin', 'begin_new', 'begin_child', 'begin_follow')
            for t in ((None, START, K(0), K(0.0), K(-1.5)) if w == 'begin' else (None,)) for tg in (None, (), TAGS[:1], TAGS)
            if w == 'begin' or tg is not None]
    r.parallel(jobs)


def kept(r, ip, st, span, name, start, tags, when, where=SPAN):
    ok = r.check(holds_tags(st, span, tags or ()), 'a span has every tag it was started with', where,
                 '%s a span started with the tags %s holds %s' % (when, say(tags or ()), '; '.join('%s=%s' % (k, say(dict_items(v, st)) if v[0] == 'O' and dict_items(v, st) is not None else show(v))
                                                                                                  for k, v in sorted(st.obj(span).f.items()))), st)
    if start is not None:
        ok &= bool(r.check(has(st, span, lambda v: v == start), 'a span has the start time it was started with', where,
                           '%s a span started at %s holds %s' % (when, show(start), '; '.join('%s=%s' % (k, show(v)) for k, v in sorted(st.obj(span).f.items()))), st))
    return ok


def c36_start(r, way, start, tags):
    mon = Block()
    sc = Scenario('trace', SETUP, mon, thread='caller')
    ip = sc.ip
    st = sc.state()
    tg = mk(ip, st, tags or (), '<tags>')
    st.rs = {'tg': tg}
    args = {}
    if way == 'begin':
        kw = [(K('operation_name'), NAME)]
        if tags is not None:
            kw.append((K('tags'), tg))
        if start is not None:
            kw.append((K('start_time'), start))
        kwd = mk(ip, st, kw, '<kw>')
        st.rs['kw'] = kwd
        args = {'kw': kwd}
    else:
        args = {'n': NAME, 'tags': tg}
        if way != 'begin_new':
            c, st, _ = context(sc, '1.2', (), st)
            (top, st), = one(r, sc.run('of_ctx', st=st, c=c), 'MySpan')
            st.rs = dict(st.rs, top=top)
            args['s'] = top
    outs = sc.run(way, st=st, **args)
    n = 0
    for ok, v, s in outs:
        n += 1
        if not r.check(ok, 'starting a span succeeds', TRACER if ok else exc_site(v, s), 'starting a span with the tags %s at %s raises %s' % (
                say(tags or ()), start and show(start), '' if ok else exc_name(ip, v, s)), s):
            continue
        s.rs = {'span': v}
        for ok2, nm, s2 in sc.run('op_name', st=s.clone(), s=v):
            r.check(ok2 and (same(ip, nm, NAME, s2) or (nm == K('') and [b for b, _ in ip.test(NAME, s2.clone())] == [False])), 'a span has its operation name', SPAN, 'a span started as %s (%s) is named %s' % (show(NAME), way, show(nm)), s2)
        if not kept(r, ip, s, v, NAME, start, tags, 'once started,', TRACER):
            continue
        for ok2, nm, s2 in sc.run('finish', st=s.clone(), s=v):
            r.check(ok2, 'finishing succeeds', SPAN, 'finish raises', s2)
            if ok2:
                kept(r, ip, s2, v, NAME, start, tags, 'once finished,')
        if way in ('begin_child', 'begin_follow') and tags != TAGS:
            continue
        excs = [None] + [ip.any_exc(x, ('body',)) for x in ('builtins.BaseException', 'builtins.Exception')]
        excs += [ip.exc(x, None, ('body',)) for x in ('builtins.ValueError', 'builtins.KeyboardInterrupt', 'builtins.SystemExit', 'builtins.GeneratorExit',
                                                      'builtins.StopIteration', 'asyncio.CancelledError', 'builtins.TimeoutError')]
        for blk in ('block', 'block_as', 'block_two'):
            for e in excs:
                mon.how = e
                for ok2, nm, s2 in sc.run(blk, st=s.clone(), s=v, body=sym('body')):
                    n += 1
                    what = 'normally' if e is None else 'with %s' % exc_name(ip, e, s2)
                    if 'ended' not in s2.rs:
                        r.fail('entering a span runs the block', SPAN if ok2 else exc_site(nm, s2), 'the block of a span is not run', s2)
                        continue
                    if e is None:
                        r.check(ok2, 'a block that ends normally goes on normally', SPAN if ok2 else exc_site(nm, s2), 'leaving the block of a span raises %s' % ('' if ok2 else exc_name(ip, nm, s2)), s2)
                        if ok2 and blk == 'block_as':
                            r.check(nm == v, 'the block gets the span', SPAN, 'with ... as gives %s' % show(nm), s2)
                    else:
                        r.check(not ok2 and nm[0] == 'XC' and nm[4][:1] == ('body',) or (not ok2 and nm == e), 'a span does not hide the exception of its block', SPAN,
                                'a block of a span that ends %s %s' % (what, 'goes on as if nothing had happened' if ok2 else 'ends with %s' % exc_name(ip, nm, s2)), s2)
                    r.check(has(s2, v, lambda x: any(y[0] == 'S' and y[1] == 'clock' and y[2][0] == K('after') for y in walk(x) if y and len(y) == 5)),
                            'a span is finished when its block ends', SPAN,
                            'a span whose block ended %s holds no time taken after it: %s' % (what, '; '.join('%s=%s' % (k, show(x)) for k, x in sorted(s2.obj(v).f.items()))), s2)
                    kept(r, ip, s2, v, NAME, start, tags, 'after a block that ended %s' % what)
                mon.how = None
    r.ran(sc, '%s %s %d tags' % (way, 'now' if start is None else show(start), len(tags or ())), n)


# ---------------------------------------------------------------------------- C37

RID_FILE = 'anthunder/helpers/request_id.py'
TOP = 2 ** 31
DRAWS = ('draw', 'draw_request', 'draw_oneway', 'draw_heartbeat')


class Numbers(Shared):
    """how ids are drawn"""

    def begin(self, ip, st):
        Shared.begin(self, ip, st)
        self.boxes = {}

    def any_value(self, ip, ref, name, site):
        return ip.fresh('shared', (ref, K(name)), 'int', site)

    def acquire(self, ip, lock, st, site):
        Shared.acquire(self, ip, lock, st, site)
        self.range_of(ip, st, st.rs.get('cur'))

    def range_of(self, ip, st, cur):
        # between two draws the counter is within the range (shown for every draw below)
        for x in (cur[1][1:] if cur else ()):
            u = lin_of(x[1][2])
            for d in (lin_add(u, {None: Fraction(1)}), lin_add(lin_scale(u, -1), {None: Fraction(TOP)})):
                k = ip.pos_key(d)
                if k not in (True, False):
                    st.facts[k[0]] = k[1]

    def keep_fact(self, key):
        return 'shared' in repr(key) or Keep.keep_fact(self, key)


def strip(t):
    """(what is reduced, modulus) of x & (2**k - 1), x % m; (x, None) otherwise"""
    if t[0] == 'S' and t[1] == 'op' and t[2][0] == 'BitAnd':
        for a, b in ((t[2][1], t[2][2]), (t[2][2], t[2][1])):
            c, k = const(b)
            if c and isinstance(k, int) and k > 0 and k & (k + 1) == 0:
                return a, k + 1
    if t[0] == 'S' and t[1] == 'op' and t[2][0] == 'Mod':
        c, k = const(t[2][2])
        if c and isinstance(k, int) and k > 0:
            return t[2][1], k
    return t, None


def size_of(m):
    if m > TOP:
        return 'it can be %d, which does not fit' % (m - 1)
    if m < TOP - 1:
        return 'ids repeat after %d, not after the whole range' % m
    return None


def c37(r, tier):
    jobs = [c37_draw]
    jobs += [lambda q, k=k, h=h: c37_frames(q, k, h) for k, h in (('sync', 'call_sync'), ('sync', 'call_oneway'), ('aio', 'call_sync'), ('aio', 'call_oneway'), ('aio', 'call_async'))]
    r.parallel(jobs)


def c37_draw(r):
    mon = Numbers()
    for attempt in range(4):
        mon.on = False
        known = set(mon.watch)
        sc = Scenario('trace', SETUP, mon, thread='caller')
        sc.module()
        res = []
        for how in DRAWS:
            for turn in (1, 2):
                st = sc.state()
                mon.begin(sc.ip, st)
                outs = sc.run(how, st=st)
                mon.on = False
                for ok, v, s in outs:
                    res.append((how, turn, ok, v, s, dict(mon.boxes)))
        if mon.watch == known:
            break
    seen = {}
    for how, turn, ok, v, s, boxes in res:
        if not r.check(ok, 'drawing an id succeeds', RID_FILE if ok else exc_site(v, s), 'drawing an id (%s) raises %s' % (how, '' if ok else exc_name(sc.ip, v, s)), s):
            continue
        got = rid_from(sc.ip, mon, v, s)
        if not r.check(got[0] != 'no', 'an id is drawn from a counter that runs through the whole range', RID_FILE, '%s gives the id %s: %s' % (how, show(v), got[1]), s):
            continue
        r.check(not boxes, 'drawing ids keeps nothing', RID_FILE, '%s changes a container that is there before: %s' % (how, ', '.join(map(str, boxes.values()))), s)
        if turn == 2 and got[0] == 'next':
            r.check(all(v != w for h, w in seen.get(1, ()) if h == how), 'every request draws an id of its own', RID_FILE, '%s gives the same id %s again' % (how, show(v)), s)
        seen.setdefault(turn, []).append((how, v))
        seen.setdefault('src', set()).add(got[:2])
    src = sorted(seen.get('src', ()), key=repr)
    r.check(len(src) == 1, 'all requests draw from one counter', RID_FILE, 'requests draw their ids from %s' % '; '.join(show(x[1]) for x in src))
    r.ran(sc, 'draw', len(res))


def rid_from(ip, mon, v, st):
    t, m = strip(v)
    f = lin_of(t)
    us = [k for k in f if k is not None] if f is not None else ()
    if f is None or len(us) != 1 or f[us[0]] not in (1, -1):
        return 'no', why_not(v, st)
    u = us[0]
    c = counter(u)
    if c is not None:
        if const(c[2][2])[1] != 1:
            return 'no', 'it skips ids'
        if m is None:
            return 'no', 'the counter never wraps and outgrows the field'
        w = size_of(m)
        return ('no', w) if w else ('next', c)
    for x in st.rs['secs'][1]:
        lock, ref, name, v0, end, site = x[1]
        if v0 != u:
            continue
        if any(b[1][0] == ref and b[1][1] == name for b in st.rs['bare'][1]):
            return 'no', 'the counter %s is also changed without the lock' % name[2]
        e, me = strip(end)
        fe = lin_of(e)
        ce = lin_const(fe) if fe is not None else None
        one = fe is not None and lin_const(lin_add(fe, lin_of(u), -1)) == 1
        high = lambda d, k: ip.know_pos(lin_add({None: Fraction(k)}, d, -1), st) is True        # d < k
        low = lambda d, k: ip.know_pos(lin_add(d, {None: Fraction(k)}, -1), st) is True         # d > k
        if one and me is not None:
            w = size_of(me)
            if w:
                return 'no', w
        elif one and m is not None:
            w = size_of(m)
            if w:
                return 'no', w
        elif one:
            if not high(fe, TOP):
                return 'no', 'the counter %s is not kept within the range' % name[2]
        elif ce is not None:
            if not (0 <= ce <= 1 and low(lin_of(u), TOP - 3)):
                return 'no', 'the counter %s starts over at %s before the whole range has been used' % (name[2], show(end))
        else:
            return 'no', 'the counter %s is left at %s' % (name[2], show(end))
        if m is None and not (v in (u, end) or (lin_of(v) is not None and (low(lin_of(v), -1) and high(lin_of(v), TOP)))):
            return 'no', 'it is not within the range'
        return 'ctr', T(lock, ref, name)
    return 'no', why_not(v, st)


def why_not(v, st):
    text = repr(v)
    if "'cycle'" in text:
        return 'itertools.cycle keeps every id it has ever returned'
    if "'gen'" in text or "list@" in text:
        return 'a generator cannot be drawn from by two threads at a time'
    if "'shared'" in text:
        return 'the counter is read and advanced without holding a lock across both'
    return 'it is not drawn from a counter'


class Ids(Frames):
    """the ids of the frames sent along a path"""

    def ext_call(self, ip, name, args, kw, st, site):
        n = len(self.frames)
        res = Frames.ext_call(self, ip, name, args, kw, st, site)
        for where, data, s in self.frames[n:]:
            f = Reply(ip, data, s, REQF)
            if not f.ok:
                raise Broken('a frame sent at %s could not be read' % where)
            v = unwrap(f.f['request_id'])
            old = st.rs['old'][1]     # of earlier calls; a request may be sent again
            self.r.check(not any(same(ip, v, w, st) for w in old), 'every frame sent has an id drawn for it', where,
                         'two calls (%s client) send the id %s' % (self.kind, show(v)), st)
            st.rs = dict(st.rs, ids=T(*(st.rs['ids'][1] + (v,))))
        return res


def c37_frames(r, kind, how):
    mon = Ids('yes')
    mon.frames, mon.r, mon.kind = [], r, kind
    sc = Scenario('trace', SETUP, mon, thread='caller')
    cs = [(v, s) for ok, v, s in sc.run('client', kind=K(kind), app=K('app')) if ok]
    if not cs:
        raise Broken('no path builds a client')
    cl, st = cs[0]
    st.rs = {'cl': cl}
    c, st, want = context(sc, '1.2', (), st)
    st.rs = dict(st.rs, cl=cl, ctx=c, ids=T(), old=T())
    mon.on = True
    for turn in (1, 2):
        n = len(mon.frames)
        outs = sc.run(how, st=st, c=cl, ctx=c)
        if len(mon.frames) == n:
            raise Broken('%s client: %s sends no frame' % (kind, how))
        # the next call is made after this one
        st = [s for ok, v, s in outs if s.rs['ids'][1]][0].clone()
        st.rs = {'cl': cl, 'ctx': c, 'ids': T(), 'old': st.rs['ids']}
    r.ran(sc, '%s client %s' % (kind, how), len(outs), frames=len(mon.frames))
