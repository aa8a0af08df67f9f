"""C30-C32: the mesh client and what the clients and listeners do with its answers."""
from .base import *
from pysa.m_lib import arg, ext_obj

SETUP = '''
import anthunder
from anthunder import AioListener, SockListener, Client, AioClient, SERVICE_MAP
from mytracer import SpanContext
from anthunder.mesh.mesh_client import MeshClient, ApplicationInfo, PublishServiceRequest, ProviderMetaInfo
def build(app): return MeshClient(ApplicationInfo(app))
def startup(m): return m.startup()
def subscribe(m, i): return m.subscribe(i)
def unsubscribe(m, i): return m.unsubscribe(i)
def unpublish(m, i): return m.unpublish(i)
def publish(m, i, port, app):
    return m.publish(PublishServiceRequest(port=port, serviceName=i,
                                           providerMetaInfo=ProviderMetaInfo(protocol="1", version="4.0", serializeType="protobuf", appName=app)))
def listener(kind, addr, app):
    return AioListener(addr, app) if kind == 'aio' else SockListener(addr, app)
def add(l, i, f): l.handler.register_interface(i, f)
def announce(l): l.publish()
def revoke(l): l.unpublish()
def client(kind, app): return AioClient(app) if kind == 'aio' else Client(app)
def sub(c, i, j): c.subscribe(i, j)
def unsub(c, i, j): c.unsubscribe(i, j)
def assign(i, a): SERVICE_MAP[i] = a
def smap(): return SERVICE_MAP
def ctx(): return SpanContext(sofaTraceId='0a')
def call(c, i, ctx, content, t): return c.invoke_sync(i, 'method', content, spanctx=ctx, timeout_ms=t)
'''
FILE = 'anthunder/mesh/mesh_client.py'
I1, I2, I3 = K('com.svc.A'), K('com.svc.B'), K('com.svc.C')
APP = K('some-app')
ENDPOINT = {'startup': 'configs/application', 'subscribe': 'services/subscribe', 'unsubscribe': 'services/unsubscribe',
            'publish': 'services/publish', 'unpublish': 'services/unpublish'}
VERBS = ('post', 'put', 'request', 'send', 'get')
NOTYES = (('false', FALSE), ('null', NONE), ('another value', sym('success', 'str')), ('missing', None))


class MeshMon(Keep):
    """the mesh answers anything; what it answered is part of the path"""

    def __init__(self, answers='any'):
        self.answers = answers
        self.counts = {}
        self.on_post = None

    def count(self, w):
        self.counts[w] = self.counts.get(w, 0) + 1

    def spawn(self, ip, aw, st, how, site):
        """what the clients run on their loops has no part in this"""
        if aw[0] in ('CO', 'AW'):
            return [(True, ('FUT', 'ok', ip.fresh('spawned', (), None, site), site), st)]
        return None

    def posts(self, st):
        v = st.rs.get('posts')
        return [x[1] for x in v[1]] if v is not None else []

    def ext_call(self, ip, name, args, kw, st, site):
        base, _, m = name.rpartition('.')
        if m in VERBS and base.startswith('requests'):
            return self.post(ip, m, [a for a in args if not (a[0] == 'O' and st.obj(a) is not None and st.obj(a).kind == 'ext' and
                                                             st.obj(a).cls == X('requests.session'))], kw, st, site)
        if name == 'requests.Response.json' or (name in ('json.loads', 'simplejson.loads') and args and self.is_body(args[0])):
            return self.body(ip, args[0], st, site)
        if name == 'requests.Response.raise_for_status':
            r = st.obj(args[0]).f
            if r['status_code'] == K(200):
                return [(True, NONE, st)]
            s2 = st.clone()
            return [(True, NONE, st), (False, ip.any_exc('builtins.OSError'), s2)]
        return None

    def is_body(self, v):
        return any(x == sym('mesh_text', 'str') or x == sym('mesh_text', 'bytes') for x in walk(v))

    def text(self, ip, v, st):
        """pieces of constant text in a value"""
        return ''.join(x[2] for x in walk(v) if x and x[0] == 'K' and isinstance(x[2], str))

    def post(self, ip, m, args, kw, st, site):
        self.count('posts')
        if m == 'request':
            args = args[1:]
        url = arg(args, kw, 0, 'url')
        data = arg(args, kw, None, 'json')
        if data == NONE:
            data = arg(args, kw, None, 'data')
        if data == NONE and len(args) > 1:
            data = args[-1]
        ps = self.posts(st)
        out = []
        if self.on_post is not None:
            self.on_post(ip, st, site)

        def outcome(verdict, s):
            s.rs['posts'] = T(*[T(*x) for x in ps], T(url, self.freeze(data, s), K(verdict)))
            return s
        if self.answers != 'yes':
            s = outcome('no', st.clone())
            s.note('%s the mesh cannot be reached' % site)
            out.append((False, ip.any_exc('requests.RequestException', ('post',)), s))
        for verdict in ('yes',) if self.answers == 'yes' else ('yes', 'no', 'maybe'):
            s = outcome('no' if verdict == 'maybe' else verdict, st.clone())
            good = verdict != 'no'
            if not good:
                n = ip.fresh('status', (), 'int', site)
                k = ip.eq_key(n, K(200))
                ip.set_fact(k[0], not k[1], s)
                s.note('%s the mesh answers with another status than 200' % site)
                alts = [(ip.fresh('okay', (), 'bool', site), n)]
            else:
                alts = [(TRUE, K(200))]
            for okay, n in alts:
                r = ext_obj(ip, s, 'requests.Response', site, status_code=n, ok=okay, text=sym('mesh_text', 'str'),
                            content=sym('mesh_text', 'bytes'), reason=sym('reason', 'str'))
                s.rs['status'] = K('maybe' if verdict == 'maybe' else verdict)
                out.append((True, r, s))
        return out

    def freeze(self, v, st, depth=3):
        o = st.obj(v) if v[0] == 'O' else None
        if o is not None and o.kind == 'dict' and depth:
            return T(K('dict'), *[T(k, self.freeze(x, st, depth - 1)) for k, x in o.m.get('items') or ()])
        return v

    def body(self, ip, r, st, site):
        """the answer: success, and not success in any way"""
        how = st.rs.get('status', K('no'))[2]
        out = []

        def answer(items, s):
            return (True, ip.alloc(s, 'dict@answer' + site, HObj('dict', 'dict', {}, {'items': tuple(items)})), s)
        msg = (K('errorMessage'), sym('message', 'str'))
        if how == 'yes':
            return [answer([(K('success'), TRUE), msg], st)]
        if how == 'no':
            # a status other than 200 with whatever body
            s = st.clone()
            return [answer([(K('success'), TRUE), msg], s), (False, ip.any_exc('requests.exceptions.JSONDecodeError'), st)]
        for name, v in NOTYES:
            s = st.clone()
            s.note('%s success is %s' % (site, name))
            out.append(answer(([(K('success'), v)] if v is not None else []) + [msg], s))
        s = st.clone()
        s.note('%s the answer has neither success nor a message' % site)
        out.append(answer([], s))
        s = st.clone()
        out.append((False, ip.any_exc('requests.exceptions.JSONDecodeError'), s))
        return out


def entry(d, k):
    """value of key k of a frozen dict"""
    if d[0] == 'T' and d[1] and d[1][0] == K('dict'):
        for x in d[1][1:]:
            if x[1][0] == K(k):
                return x[1][1]
    return None


def about(mon, ip, p, st):
    """which operation a post is"""
    t = mon.text(ip, p[0], st)
    for n, e in ENDPOINT.items():
        if t.rstrip('/').endswith('/' + e) or t == e:
            return n
    return None


def accepted(p):
    return p[2] == K('yes')


def c30(r, tier):
    def fresh():
        mon = MeshMon()
        sc = Scenario('mesh', SETUP, mon, thread='caller')
        ms = [(v, s) for ok, v, s in sc.run('build', app=APP) if ok]
        if not ms:
            raise Broken('no path builds a mesh client')
        m, st = ms[0]
        for p in mon.posts(st):
            r.fail('an application is registered by starting the client', FILE, 'building a mesh client posts to the mesh', st)
        st.rs = {'m': m}
        return mon, sc, m, st
    for op in ENDPOINT:
        mon, sc, m, st = fresh()
        kw = {} if op == 'startup' else dict(i=I1)
        if op == 'publish':
            kw.update(port=K('12200'), app=APP)
        outs = sc.run(op, st=st, m=m, **kw)
        for ok, v, s in outs:
            where = FILE if ok else exc_site(v, s)
            ps = mon.posts(s)
            yes = [p for p in ps if accepted(p)]
            if ok:
                r.check(bool(ps) and accepted(ps[-1]), '%s returns only if the mesh answered 200 with success being true' % op, where,
                        '%s returns normally although %s' % (op, 'nothing was sent to the mesh' if not ps else
                                                            'the mesh did not answer 200 with success being true'), s)
                if ps:
                    p = ps[-1]
                    r.check(about(mon, sc.ip, p, s) == op, '%s asks the mesh for that' % op, where, '%s posts to %s' % (op, mon.text(sc.ip, p[0], s)), s)
                    key, val = ('appName', APP) if op == 'startup' else ('serviceName', I1)
                    got = entry(p[1], key)
                    r.check(got == val, '%s names what it is about' % op, where, '%s posts %s' % (op, show(p[1])), s)
            else:
                r.check(not yes, '%s does not fail when the mesh accepted it' % op, where, '%s raises %s although the mesh accepted it' % (
                    op, exc_name(sc.ip, v, s)), s)
                r.ok('%s raises when the mesh did not accept it' % op)
            r.check(len(yes) <= 1, '%s is accepted at most once' % op, where, '%s is accepted %d times' % (op, len(yes)), s)
        if not mon.counts.get('posts') and not r.findings:
            raise Broken('%s posts nothing' % op)
        r.ran(sc, op, len(outs), **mon.counts)
        if op == 'startup':
            again(r, mon, sc, m, outs)
    threads(r, fresh)


def again(r, mon, sc, m, outs):
    """a second start, after every way the first may have ended"""
    n = 0
    for ok, v, s in outs:
        done = any(accepted(p) for p in mon.posts(s))
        s.rs = {'m': m}
        s.stack, s.tmp, s.locks = (), (), ()
        second = sc.run('startup', st=s, m=m)
        n += len(second)
        for ok2, v2, s2 in second:
            where = FILE if ok2 else exc_site(v2, s2)
            ps = mon.posts(s2)
            if done:
                r.check(not ps, 'an application is registered at most once', where, 'a started mesh client registers the application again', s2)
                r.check(ok2, 'starting a started client succeeds', where, 'starting a started client raises %s' % exc_name(sc.ip, v2, s2) if not ok2 else '', s2)
            elif ok2:
                r.check(any(accepted(p) for p in ps), 'a client counts as registered only after the mesh accepted it', where,
                        'a client whose registration failed counts as registered', s2)
    r.ran(sc, 'second start', n, **mon.counts)


def threads(r, fresh):
    """another thread starts the client at any point at which it can"""
    mon, sc, m, st = fresh()
    pre = {k for k in list(st.heap) + list(sc.prog.base)}
    done = [s for ok, v, s in sc.run('startup', st=st.clone(), m=m) if ok and any(accepted(p) for p in mon.posts(s))]
    if not done:
        raise Broken('no path starts a mesh client')
    after = done[0]
    change = []
    for k in st.heap:
        a, b = st.heap.get(k), after.heap.get(k)
        if a is not None and b is not None and a.kind == 'inst':
            for n in b.f:
                if a.f.get(n) != b.f[n]:
                    change.append((('O', k), n, b.f[n]))
    held = lambda s: [l for l in s.locks if l[0] == 'O' and l[1] in pre]
    snaps = []

    class Other(MeshMon):
        def post(self, ip, *a):
            st, site = a[-2:]
            r.check(held(st), 'registering is one atomic step', site, 'the application is registered without holding a lock of the client, another thread may register it too', st)
            return MeshMon.post(self, ip, *a)

        def acquire(self, ip, lock, st, site):
            if lock[1] in pre and len(held(st)) <= 1 and st.rs.get('other') is None and self.mode == 'before':
                self.count('interferences')
                st.rs['other'] = TRUE
                st.note('%s another thread starts the client just before' % site)
                for ref, n, v in change:
                    st.put(ref, st.obj(ref).set(n, v))

        def release(self, ip, lock, st, site):
            if lock[1] in pre and not held(st) and self.mode == 'after':
                s = st.clone()
                s.stack, s.tmp, s.locks = (), (), ()
                snaps.append((site, s))
    for mode in ('before', 'after'):
        mon2 = Other()
        mon2.mode = mode
        sc.mon = sc.ip.mon = mon2
        outs = sc.run('startup', st=st.clone(), m=m)
        for ok, v, s in outs:
            if s.rs.get('other') is not None:
                r.check(not mon2.posts(s), 'an application is registered at most once', FILE,
                        'the application is registered again when another thread has registered it meanwhile', s)
        r.ran(sc, 'other thread %s' % mode, len(outs), **mon2.counts)
    mon3 = MeshMon()
    sc.mon = sc.ip.mon = mon3
    n = 0
    for site, s in snaps:
        if not any(accepted(p) for p in mon3.posts(s)):
            continue
        s.rs = {'m': m}
        for ok, v, s2 in sc.run('startup', st=s, m=m):
            n += 1
            r.check(not mon3.posts(s2), 'an application is registered at most once', site, 'the lock is released before the client counts as registered', s2)
    r.ran(sc, 'other thread after release', n, **mon3.counts)


# ---------------------------------------------------------------- C31

class MapMon(MeshMon):
    """changes of the service map, and what the mesh had accepted by then"""
    smap = None
    r = None
    active = False

    def ext_call(self, ip, name, args, kw, st, site):
        if self.active:
            a = None
            if name in ('socket.socket.connect', 'socket.socket.connect_ex'):
                a = args[1]
            elif name in ('await:asyncio.open_connection', 'await:asyncio.Loop.create_connection'):
                i = 0 if name.endswith('open_connection') else 2
                a = T(arg(args, kw, i, 'host'), arg(args, kw, i + 1, 'port'))
            elif name == 'socket.create_connection':
                a = args[0]
            if a is not None:
                if a[0] == 'O' and st.obj(a).kind == 'list':
                    a = T(*(st.obj(a).m.get('items') or ()))
                self.dialled.append((site, a, st.clone()))
                return [(False, ip.any_exc('builtins.OSError', ('dial',)), st)]
            if name.startswith('socket.socket.send') or name.endswith('.select'):
                return [(False, ip.any_exc('builtins.OSError', ('send',)), st)]
        return MeshMon.ext_call(self, ip, name, args, kw, st, site)

    def spawn(self, ip, aw, st, how, site):
        return None if self.active else MeshMon.spawn(self, ip, aw, st, how, site)

    def dict_event(self, ip, op, ref, key, val, st, site):
        if ref != self.smap or self.r is None:
            return
        yes = {(about(self, ip, p, st), entry(p[1], 'serviceName')) for p in self.posts(st) if accepted(p)}
        if op in ('set', 'setdefault'):
            self.count('map changes')
            self.r.check(('subscribe', key) in yes, 'an interface is mapped only after the mesh accepted the subscription', site,
                         '%s is mapped to an address without an accepted subscription' % show(key), st)
        elif op in ('pop', 'del'):
            if any(k == key for k, _ in st.obj(ref).m.get('items') or ()):
                self.count('map changes')
                self.r.check(('unsubscribe', key) in yes, 'an interface is forgotten only after the mesh accepted that', site,
                             '%s is forgotten without an accepted unsubscription' % show(key), st)
        elif op in ('popitem', 'clear'):
            self.r.fail('an interface is forgotten only after the mesh accepted that', site, 'entries are removed from the service map (%s)' % op, st)


def entries(st, ref):
    return dict(st.obj(ref).m.get('items') or ())


def mapped(kind, preset, answers='yes'):
    mon = MapMon(answers)
    sc = Scenario('map', SETUP, mon, thread='caller')
    cs = [(v, s) for ok, v, s in sc.run('client', kind=K(kind), app=APP) if ok and any(accepted(p) for p in mon.posts(s))]
    if not cs:
        raise Broken('no path builds a client with a mesh')
    c, st = cs[0]
    st.rs = {'c': c}
    (ok, smap, st), = sc.run('smap', st=st)
    addr = MESH
    if smap[0] != 'O':
        raise Broken('the service map is not an object')
    o = st.obj(smap)
    st.put(smap, o.meta(items=tuple(preset), open=False))
    st.rs = {'c': c, 'm': smap}
    mon.smap = smap
    mon.answers = 'any'
    return mon, sc, c, smap, addr, st


MESH = T(K('127.0.0.1'), K(12220))
OWN = T(K('10.0.0.9'), K(12200))


def c31(r, tier):
    for kind in ('sync', 'aio'):
        for pre in ((), ((I1, OWN), (I3, OWN))):
            mon, sc, c, smap, addr, st = mapped(kind, pre)
            mon.r = r
            outs = sc.run('sub', st=st, c=c, i=I1, j=I2)
            judge(r, mon, sc, 'subscribe', outs, smap, addr, dict(pre))
            r.ran(sc, '%s subscribe %d' % (kind, len(pre)), len(outs), **mon.counts)
        for pre in (((I1, None), (I2, None), (I3, OWN)), ((I2, None),)):
            mon, sc, c, smap, addr, st = mapped(kind, ())
            pre = tuple((k, v or addr) for k, v in pre)
            st.put(smap, st.obj(smap).meta(items=pre))
            mon.r = r
            outs = sc.run('unsub', st=st, c=c, i=I1, j=I2)
            judge(r, mon, sc, 'unsubscribe', outs, smap, addr, dict(pre))
            r.ran(sc, '%s unsubscribe %d' % (kind, len(pre)), len(outs), **mon.counts)
        if not mon.counts.get('posts') and not r.findings:
            raise Broken('%s client: nothing is posted' % kind)
    # assignment
    calls(r)
    old = sym('old_address')
    for pre in ((), ((I1, old),)):
        mon, sc, c, smap, addr, st = mapped('sync', pre)
        new = sym('address')
        outs = sc.run('assign', st=st, i=I1, a=new)
        for ok, v, s in outs:
            now = entries(s, smap)
            if pre:
                r.check(now.get(I1) == old and not ok, 'a mapped address cannot be replaced by assignment', 'anthunder/helpers/immutable_dict.py',
                        'an assignment to a mapped interface %s' % ('succeeds' if ok else 'changes its address'), s)
            else:
                r.check(ok and now.get(I1) == new, 'an unmapped interface can be assigned', 'anthunder/helpers/immutable_dict.py',
                        'an assignment to an unmapped interface does not map it', s)
        r.ran(sc, 'assign %d' % len(pre), len(outs), **mon.counts)


HOST = sym('host', 'str')


def calls(r):
    """where a call connects to, for every kind of entry"""
    for kind in ('sync', 'aio'):
        for how, value in (('no entry', None), ('a host', HOST), ('a host and a port', T(HOST, sym('port', 'int')))):
            mon, sc, c, smap, addr, st = mapped(kind, ((I1, value),) if value is not None else ((I2, OWN),))
            xs = [(v, s) for ok, v, s in sc.run('ctx', st=st) if ok]
            if not xs:
                raise Broken('no path builds a span context')
            ctx, st = xs[0]
            mon.dialled, mon.active = [], True
            want = addr if value is None else T(HOST, K(12200)) if how == 'a host' else value
            outs = sc.run('call', st=st, c=c, i=I1, ctx=ctx, content=K(b'x'), t=K(1000))
            if not mon.dialled and not r.findings:
                raise Broken('%s client: nothing is dialled' % kind)
            for site, a, s in mon.dialled:
                r.check(a == want, 'an interface with %s is called at its address' % how, site, 'an interface with %s is called at %s instead of %s' % (
                    how, show(a), show(want)), s)
            r.ran(sc, '%s call, %s' % (kind, how), len(outs), dials=len(mon.dialled))


def judge(r, mon, sc, op, outs, smap, addr, pre):
    """the map after the operation, against what the mesh answered"""
    where = 'anthunder/client/base.py'
    both = False
    for ok, v, s in outs:
        r.check(ok, '%s of several interfaces is never cut short' % op, where if ok else exc_site(v, s), '%s raises %s' % (op, exc_name(sc.ip, v, s) if not ok else ''), s)
        if not ok:
            continue
        ps = mon.posts(s)
        now = entries(s, smap)
        yes = {(about(mon, sc.ip, p, s), entry(p[1], 'serviceName')) for p in ps if accepted(p)}
        tried = {(about(mon, sc.ip, p, s), entry(p[1], 'serviceName')) for p in ps}
        for i in (I1, I2):
            r.check((op, i) in tried, 'one failing interface does not affect the others', where, '%s is never sent to the mesh for %s' % (op, i[2]), s)
            if op == 'subscribe':
                want = pre.get(i, addr if (op, i) in yes else None)
            else:
                want = None if (op, i) in yes else pre.get(i)
            r.check(now.get(i) == want, 'after %s the map has what the mesh answered' % op, where, 'after %s, %s is mapped to %s instead of %s' % (
                op, i[2], show(now[i]) if i in now else None, show(want) if want is not None else None), s)
        r.check(now.get(I3) == pre.get(I3), 'other interfaces keep their entry', where, '%s changes the entry of another interface' % op, s)
        both = both or len(yes) == 2
    if not both and not r.findings:
        raise Broken('no path of %s is accepted twice' % op)


# ---------------------------------------------------------------- C32

def c32(r, tier):
    where = 'anthunder/listener/base_listener.py'
    for kind in ('sock', 'aio'):
        for names in ((), (I1,), (I1, I2, I1, I3)):
            for answers in ('yes', 'any', 'down'):
                mon = MeshMon('any')
                sc = Scenario('publish', SETUP, mon, thread='caller')
                outs = [(v, s) for ok, v, s in sc.run('listener', kind=K(kind), addr=T(K('127.0.0.1'), K(12345)), app=APP) if ok]
                up = [(v, s) for v, s in outs if any(accepted(p) for p in mon.posts(s))]
                down = [(v, s) for v, s in outs if not any(accepted(p) for p in mon.posts(s))]
                pick = down if answers == 'down' else up
                if not pick:
                    raise Broken('no path builds a listener %s a mesh' % ('without' if answers == 'down' else 'with'))
                for l, st in pick if answers == 'down' else pick[:1]:
                    st = st.clone()
                    st.rs = {'l': l}
                    for i in names:
                        rs = [(v, s) for ok, v, s in sc.run('add', st=st, l=l, i=i, f=sym('factory')) if ok]
                        if not rs:
                            raise Broken('no path registers an interface')
                        _, st = rs[0]
                    cur = [st]
                    # every step starts from every state the one before may end in
                    steps = (('announce', 'publish', answers), ('revoke', 'unpublish', answers), ('announce', 'publish', 'yes'), ('revoke', 'unpublish', 'yes'))
                    for op, kindname, how in steps:
                        mon.answers = 'any' if answers == 'down' else how
                        nxt, total = [], 0
                        for s0 in cur:
                            s0 = s0.clone()
                            s0.rs, s0.stack, s0.tmp, s0.locks = {'l': l}, (), (), ()
                            rs = sc.run(op, st=s0, l=l)
                            total += len(rs)
                            for ok, v, s in rs:
                                judge32(r, mon, sc, where, names, kindname, 'down' if answers == 'down' else how, ok, v, s)
                                nxt.append(s)
                        seen, cur = set(), []
                        for s in nxt:
                            k = tuple(sorted((repr(x[0]), repr(o.f), repr(o.m)) for x, o in s.heap.items() if x[0] == l or o.kind in ('dict', 'inst')))
                            if k not in seen and len(cur) < 12:
                                seen.add(k)
                                cur.append(s)
                        r.ran(sc, '%s %s %d %s' % (kind, kindname, len(names), how if answers != 'down' else 'down'), total, **mon.counts)


def judge32(r, mon, sc, where, names, kindname, answers, ok, v, s):
    ps = mon.posts(s)
    at = where if ok else exc_site(v, s)
    if answers == 'down':
        r.check(ok and not ps, 'without a mesh %s does nothing' % kindname, at, 'without a mesh, %s %s' % (
            kindname, 'posts to it' if ps else 'raises %s' % exc_name(sc.ip, v, s) if not ok else ''), s)
        return
    got = [entry(p[1], 'serviceName') for p in ps]
    if answers == 'yes':
        r.check(ok, '%s succeeds with the mesh' % kindname, at, '%s raises %s' % (kindname, exc_name(sc.ip, v, s) if not ok else ''), s)
        r.check(sorted(map(repr, got)) == sorted({repr(i) for i in names}), '%s covers every registered interface once' % kindname, at,
                'with %s registered, %s sends %s' % (sorted({i[2] for i in names}), kindname, [show(g) if g else None for g in got]), s)
    for p in ps:
        r.check(about(mon, sc.ip, p, s) == kindname, '%s asks the mesh for that' % kindname, at, '%s posts to %s' % (kindname, mon.text(sc.ip, p[0], s)), s)
        if kindname != 'publish':
            continue
        port, info = entry(p[1], 'port'), entry(p[1], 'providerMetaInfo')
        r.check(port in (K('12345'), K(12345)), 'the port announced is that of the listener', at, 'announces port %s' % (show(port) if port else None), s)
        app = entry(info, 'appName') if info is not None else None
        r.check(app == APP, 'the application announced is that of the listener', at, 'announces application %s' % (show(app) if app else None), s)
    if answers == 'any':
        oks = [entry(p[1], 'serviceName') for p in ps if accepted(p)]
        r.check(len(set(oks)) == len(oks), '%s covers every registered interface once' % kindname, at, '%s sends %s' % (kindname, [show(g) for g in got if g]), s)
