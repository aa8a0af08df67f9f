"""The blocking client: C11, C13, C16, C18, C22, C24, C26, C28, C33 (its part)."""
from .base import *
from .pool import QUEUES
from .server import Reply
from pysa.m_lib import arg
from pysa.m_methods import sel_register

SETUP = '''
from anthunder import Client
from anthunder.protocol.exceptions import DecodeError
from anthunder.exceptions import PyboltError, ClientError, ServerError
from mysockpool import PoolManager, SocketConnection, ConnectionPool
from mysockpool.exceptions import MysockpoolError
from mytracer import SpanContext
def key(host, port): return ConnectionPool.ConnectionCls.PoolKeyCls(host, port)
def conn(k): return SocketConnection(k)
def build(): return Client('app')
def ctx(tid): return SpanContext(sofaTraceId=tid)
def sync(c, ctx, content, timeout, app, uid):
    return c.invoke_sync('com.svc.A', 'method', content, spanctx=ctx, target_app=app, uid=uid, timeout_ms=timeout)
def oneway(c, ctx, content, app, uid):
    return c.invoke_oneway('com.svc.A', 'method', content, spanctx=ctx, target_app=app, uid=uid)
def exact(conn, n): return conn.recvexactly(n)
'''
REQF = (('proto', 1), ('ptype', 1), ('cmdcode', 2), ('ver2', 1), ('request_id', 4), ('codec', 1), ('timeout', 4),
        ('class_len', 2), ('header_len', 2), ('content_len', 4))
FILE = 'anthunder/client/client.py'
CONTENT, TMO = sym('content', 'bytes'), sym('timeout_ms', 'int')
# functions that depend on and change nothing but what they are given (naming them makes the analysis faster, no more)
PURE = ('SofaHeader.from_bytes', 'MyTracer.extract', '.bolt_content_from_stream', 'BoltPackage.__init__', 'SofaHeader.to_bytes')


def summarised(info):
    return 'exact' if info.qual.endswith(PURE[0]) else 'class' if info.qual.endswith(PURE[1]) else 'join' if info.qual.endswith(PURE[2:]) else None


# errors that name a failure of the call; anything else is an accident
NAMING = ('builtins.OSError', 'builtins.EOFError', 'builtins.TimeoutError')


class Answer(object):
    """terms of the response being read"""

    def __init__(self, b):
        u = lambda off, code: S('unp', (b, K(off), '>', code), 'int')
        self.rid, self.status = u(5, 'i'), u(10, 'h')
        self.cl, self.hl, self.ctl = u(12, 'H'), u(14, 'H'), u(16, 'I')
        d = {None: Fraction(20)}
        for x in (self.cl, self.hl, self.ctl):
            d[x] = Fraction(1)
        self.total = d
        self.content = S('sl', (b, lin_val({None: Fraction(20), self.cl: Fraction(1), self.hl: Fraction(1)}), self.ctl), 'bytes')


class ClientMon(Keep):
    def __init__(self, rules):
        self.r = rules
        self.counts = {}
        self.managers = []
        self.dial, self.watch, self.lossy, self.cut = True, False, True, False

    def fail(self, pid, rule, where, msg, st):
        if pid in self.r:
            self.r[pid].fail(rule, where, msg, st)

    def ok(self, pid, text):
        if pid in self.r:
            self.r[pid].ok(text)

    def summary(self, info):
        return summarised(info)

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def keep_fact(self, key):
        for t in key[1:]:
            if isinstance(t, tuple) and t and any(x and x[0] == 'S' and len(x) == 5 and x[1] == 'resp' for x in walk(t)):
                return True
        return Keep.keep_fact(self, key)

    # ---- the clock never goes back
    def clock(self, ip, st, site):
        t = ip.fresh('later' if st.rs.get('first') is not None else 'now', (), 'float', site)
        old = st.rs['nows'][1] if st.rs.get('nows') is not None else ()
        for o in old:
            if o != t:
                k = ip.pos_key(lin_add(lin_of(o), lin_of(t), -1))
                if k not in (True, False):
                    st.facts[k[0]] = not k[1]
        if st.rs.get('first') is None and t not in old:
            st.rs['nows'] = T(*(old + (t,)))
        st.rs['now'] = t
        return [(True, t, st)]

    def ext_call(self, ip, name, args, kw, st, site):
        if not self.watch:
            return None
        t, _, m = name.rpartition('.')
        if t in QUEUES:     # every connection is a new one
            if m in ('get', 'get_nowait'):
                return [ip.raise_('queue.Empty', st, site)]
            if m == 'qsize':
                return [(True, ZERO, st)]
            if m in ('empty', 'full'):
                return [(True, K(m == 'empty'), st)]
            if m in ('put', 'put_nowait'):
                self.returned(ip, args[1], st, site)
            return [(True, NONE, st)]
        if t == 'socket.socket' and m in ('connect', 'setsockopt', 'setblocking', 'settimeout', 'shutdown'):
            if not self.dial:
                self.count('dials')
                return [(False, ip.any_exc('builtins.OSError', ('dial',)), st)]
            return [(True, NONE, st)]
        if t == 'socket.socket' and m in ('close', 'detach'):
            self.update(st, args[0], closed=TRUE)
            return [(True, NONE, st)]
        if t == 'time' and m in ('time', 'monotonic', 'perf_counter'):
            return self.clock(ip, st, site)
        if t == 'socket.socket' and m in ('send', 'sendall'):
            return self.send(ip, name, args, st, site)
        if t == 'socket.socket' and m in ('recv', 'read'):
            return self.recv(ip, args, st, site)
        if m == 'register' and t == 'selectors.DefaultSelector' and (not self.lossy or self.complete(ip, st)) and self.usable(st, args[1]):
            return [r for r in sel_register(ip, args[0], args[1:], kw, st, site) if r[0]]
        if m in ('select', 'poll') and (t.startswith('selectors') or t.startswith('select')):
            return self.waits(ip, args, kw, st, site, Fraction(1, 1000) if m == 'poll' else Fraction(1))
        return None

    def usable(self, st, v):
        """is it (or does it hold) a connection that was not closed"""
        o = st.obj(v) if v[0] == 'O' else None
        have = {v} | set(o.f.values() if o is not None else ())
        return v == st.rs.get('sock') or any(c[1][0] in have and c[1][1] == FALSE for c in self.conns(st))

    def waits(self, ip, args, kw, st, site, unit=Fraction(1)):
        """waiting for the response"""
        if st.rs.get('sock') is None or not self.complete(ip, st):
            return
        self.count('waits for the response')
        if self.cut:
            return [(False, ip.any_exc('builtins.OSError', ('wait',)), st)]
        if self.how == 'oneway':
            self.fail('C22', 'one-way calls do not wait', site, 'waits after sending a one-way request', st)
            return
        if self.how != 'sync':
            return
        first = st.rs.get('first')
        base = first if first is not None else st.rs.get('nows')
        if first is None:
            st.rs['first'] = base if base is not None else T()
        t = arg(args, kw, 1, 'timeout')
        l = lin_of(t) if t is not None else None
        if t is None or t == NONE or l is None:
            self.fail('C24', 'the wait for the response is limited', site, 'waits for the response without a limit (%s)' % show(t if t is not None else NONE), st)
            return
        lim = {TMO: Fraction(1, 1000), None: Fraction(1)}
        over = lin_add({k: c * unit for k, c in l.items()}, lim, -1)
        good = ip.know_pos(l, st) is False or first is None and ip.know_pos(over, st) is False
        now = st.rs.pop('now', None)        # time passes while it waits
        for r in base[1] if base is not None and now is not None else ():
            good = good or ip.know_pos(lin_add(lin_add(over, lin_of(now)), lin_of(r), -1), st) is False
        if good:
            self.ok('C24', 'the wait for response bytes ends at most the timeout plus one second after it began')
        else:
            self.fail('C24', 'the wait for the response is limited', site,
                      'waits for %s, so the waiting may go on for more than the timeout plus one second' % show(t, 4), st)

    # ---- what became of the connections a frame was sent on
    def conns(self, st):
        return st.rs['cs'][1] if st.rs.get('cs') is not None else ()

    def update(self, st, sock, closed=None, put=0, dirty=None, add=False):
        out, hit = [], False
        for c in self.conns(st):
            s, cl, n, d = c[1]
            if s == sock:
                hit = True
                c = T(s, closed or cl, K(n[2] + put), dirty or d)
            out.append(c)
        if not hit and add:
            out.append(T(sock, FALSE, ZERO, FALSE))
        st.rs['cs'] = T(*out)

    def returned(self, ip, item, st, site):
        """something is put into the queue of a pool"""
        todo, seen = [item], set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == 'T':
                todo.extend(v[1])
            o = st.obj(v) if v[0] == 'O' else None
            if o is None:
                continue
            for c in self.conns(st):
                if c[1][0] == v:
                    self.update(st, v, put=1)
                    self.clean(ip, c[1], st, site)
            if len(seen) < 20 and o.kind != 'class':
                todo.extend(x for x in o.f.values() if x[0] in 'OT' and x not in seen)

    def clean(self, ip, c, st, site):
        """a connection goes back to the pool: nothing of the call may be left on it"""
        self.count('connections returned')
        if c[2] != ZERO:
            self.fail('C26', 'a connection is returned once', site, 'the connection of the call is returned to the pool twice', st)
        if c[1] != FALSE:
            self.fail('C26', 'a connection is returned or closed', site, 'a connection is returned to the pool after it was closed', st)
        if c[3] != FALSE:
            self.fail('C26', 'a connection on which the call failed is discarded', site, 'a connection whose send failed is returned to the pool', st)
            return
        good = False
        if self.how == 'oneway':
            good = self.complete(ip, st)
        elif st.rs.get('resp') is not None and st.rs.get('eofs') is None:
            a = Answer(st.rs['resp'])
            s = self.as_settled(ip, st)
            good = ip.know_pos(lin_add(a.total, lin_of(s.rs['pos']), -1), s) is False and same(ip, a.rid, s.rs['rid'], s)
        if good:
            self.ok('C26', 'a connection is returned only with nothing left on it')
        else:
            self.fail('C26', 'a connection on which the call failed is discarded', site,
                      'a connection is returned to the pool although the response of this call may still arrive on it', st)

    # ---- requests out
    def send(self, ip, name, args, st, site):
        self.count('sends')
        sock, data = args[0], unwrap(args[1])
        if data[0] == 'O' and st.obj(data) is not None and st.obj(data).kind == 'ext':
            data = st.obj(data).f.get('v', st.obj(data).f.get('.v', data))
        for c in self.conns(st):
            if c[1][0] == sock and c[1][1] != FALSE:
                self.fail('C26', 'closed connections are not used', site, 'sends on a connection it has closed', st)
        if 'rest' not in st.rs or st.rs.get('sock') != sock:
            # the first piece of a frame
            st.rs['sock'] = sock
            self.update(st, sock, add=True)
            for k in ('all', 'pos', 'rest', 'resp', 'eofs'):
                st.rs.pop(k, None)
            f = Reply(ip, data, st, REQF)
            if not f.ok or not f.whole:
                self.fail('C11', 'every frame is sent whole', site, 'sends %s, which is not one whole frame' % show(data)[:200], st)
            else:
                self.ok('C11', 'a send begins with a whole frame')
                self.frame(ip, f, st, site)
            st.rs['sent'] = ZERO
            st.rs['msg'] = data
        elif data != st.rs['rest'] and not same(ip, data, st.rs['rest'], st) \
                and not same(ip, self.recut(ip, data, st, site), self.unsent(ip, st, site), st):
            self.fail('C11', 'every frame is sent whole', site, 'sends %s where %s is still unsent' % (show(data)[:150], show(st.rs['rest'])[:150]), st)
        s2 = st.clone()
        s2.note('%s the send fails' % site)
        err = (False, ip.any_exc('builtins.OSError', ('send',)), s2)
        self.update(s2, sock, dirty=TRUE)
        if name.endswith('sendall'):
            st.rs['rest'], st.rs['all'] = K(b''), TRUE
            return [(True, NONE, st)] + ([err] if self.lossy else [])
        n = ip.fresh('sent', (sock,), 'int', site)
        ip.set_fact(('pos', n), True, st)
        room = ip.length_of(data, st)
        if room is not None:
            k = ip.pos_key(lin_add(lin_of(n), room, -1))
            if k not in (True, False):
                ip.set_fact(k[0], not k[1], st)
        from pysa import m_bytes as mb
        rs = mb.slice_text(ip, data, n, NONE, NONE, st, site)
        out = []
        for b, v, s in rs:
            if b:
                s.rs['rest'] = v
                s.rs['sent'] = lin_val(lin_add(lin_of(s.rs['sent']), lin_of(n)))
                out.append((True, n, s))
        return out + ([err] if self.lossy else [])

    def recut(self, ip, data, st, site):
        """a text that begins with a cut piece, cut again with what is known by now about where the cut is"""
        from pysa import m_bytes as mb
        ps = list(data[2]) if data[0] == 'S' and data[1] == 'cat' else [data]
        if not ps or ps[0][0] != 'S' or ps[0][1] != 'sl' or ps[0][2][2] is not None:
            return data
        x, lo = ps[0][2][:2]
        whole = S('cat', tuple([x] + ps[1:]), 'bytes')
        s = st.clone()
        rs = mb.slice_text(ip, whole, lo, NONE, NONE, s, site)
        return rs[0][1] if len(rs) == 1 and rs[0][0] else data

    def unsent(self, ip, st, site):
        """what is left of the message, cut with what is known by now"""
        from pysa import m_bytes as mb
        if 'msg' not in st.rs or 'sent' not in st.rs:
            return st.rs['rest']
        rs = mb.slice_text(ip, st.rs['msg'], st.rs['sent'], NONE, NONE, st.clone(), site)
        return rs[0][1] if len(rs) == 1 and rs[0][0] else st.rs['rest']

    def frame(self, ip, f, st, site):
        """the fields of a request that is being sent"""
        self.count('frames')
        st.rs['rid'] = unwrap(f.f['request_id'])
        p = unwrap(f.f['ptype'])
        if 'C22' in self.r and self.how == 'oneway':
            self.r['C22'].check(p == K(2), 'one-way calls are sent as one-way', site, 'a one-way call is sent with frame type %s' % show(p), st)
        if self.how == 'sync' and 'C24' in self.r:
            t = unwrap(f.f['timeout'])
            self.r['C24'].check(self.announced(ip, t, st), 'the frame announces the timeout in milliseconds', site,
                                'the frame announces %s for a timeout of timeout_ms milliseconds' % show(t), st)

    def announced(self, ip, t, st):
        if same(ip, t, TMO, st):
            return True
        # no timeout: the published value for none is -1
        return t == K(-1) and ip.know_pos({TMO: Fraction(1)}, st) is False

    def complete(self, ip, st):
        """is the whole frame with the peer"""
        if 'rest' not in st.rs:
            return False
        if st.rs.get('all') == TRUE:
            return True
        l = ip.length_of(st.rs['rest'], st)
        if l is not None and (lin_const(l) == 0 or ip.know_pos(l, st) is False):
            st.rs['rest'], st.rs['all'] = K(b''), TRUE
            for k in ('sent', 'msg'):
                st.rs.pop(k, None)
            return True
        return False

    # ---- responses in
    def settle(self, ip, st):
        """write the position in the response as the end of one of its parts, where it is known to be that"""
        l = lin_of(st.rs.get('pos', ZERO))
        known = l and [x for x in l if x and x[1] == 'len' and x[2][0][1] in ('prefix', 'chunk')]
        if not known:
            return
        it = known[0]
        rest = lin_add(l, {it: Fraction(1)}, -1)
        a = Answer(st.rs['resp'])
        d, ends = {None: Fraction(20)}, [{None: Fraction(20)}]
        for x in (a.cl, a.hl, a.ctl):
            d[x] = Fraction(1)
            ends.append(dict(d))
        for d in ends:
            if ip.know_pos(lin_add(d, l, -1), st) is False and ip.know_pos(lin_add(l, d, -1), st) is False:
                to = lin_add(d, rest, -1)

                def fn(v):
                    m = lin_of(v) if v == it or v[0] == 'S' and v[1] == 'lin' else {}
                    if it not in m:
                        return None
                    return lin_val(lin_add({k: c for k, c in m.items() if k != it}, lin_scale(to, m[it])), v[3])
                ip.substitute(st, fn)
                for k, v in list(st.facts.items()):
                    if k[0] == 'eq0' and v and k[1][0] == 'S' and k[1][1] == 'lin':
                        ip.set_fact(k, v, st)
                return

    def as_settled(self, ip, st):
        s = st.clone()
        self.settle(ip, s)
        return s

    def recv(self, ip, args, st, site):
        self.count('reads')
        sock, n = args[0], args[1] if len(args) > 1 else NONE
        if self.how == 'oneway':
            self.fail('C22', 'one-way calls do not wait', site, 'reads a response to a one-way request', st)
        if st.rs.get('sock') == sock and not self.complete(ip, st):
            self.fail('C11', 'every frame is sent whole', site, 'waits for the response before the whole request was accepted', st)
        elif st.rs.get('sock') == sock:
            self.ok('C11', 'the whole request was accepted before the response is read')
        if st.rs.get('resp') is not None:
            self.settle(ip, st)
        s_eof, s_err = st.clone(), st.clone()
        base = S('resp', (sock,), 'bytes')
        pos = st.rs.get('pos', ZERO)
        k = S('len', (ip.fresh('chunk', (sock,), 'bytes', site),), 'int')
        ip.register(k)
        ip.set_fact(('pos', k), True, st)
        if lin_of(n) is not None:
            q = ip.pos_key(lin_add(lin_of(k), lin_of(n), -1))
            if q not in (True, False):
                ip.set_fact(q[0], not q[1], st)
        data = S('sl', (base, pos, k), 'bytes')
        st.rs['pos'] = lin_val(lin_add(lin_of(pos), lin_of(k)))
        st.rs['resp'] = base
        e = s_eof.rs.get('eofs', ZERO)[2]
        if st.rs.get('eofs') is not None:
            out = []
        else:
            out = [(True, data, st)]
        if e >= 3:
            self.fail('C13', 'reading stops at the end of the stream', site, 'reads again and again after the peer has closed the connection', s_eof)
        else:
            s_eof.rs['eofs'] = K(e + 1)
            s_eof.note('%s the peer has closed the connection' % site)
            self.count('reads at the end')
            out.append((True, K(b''), s_eof))
        s_err.note('%s the connection is lost' % site)
        out.append((False, ip.any_exc('builtins.OSError', ('recv',)), s_err))
        return out

    def head(self, ip, node, st):
        if any(f.endswith(PURE) for f in ip.calls):
            return
        for q in ('sent', 'pos'):
            v = st.rs.get(q)
            if v is None or const(v)[0]:
                continue
            s = S('len', (S('prefix', (K(q), site_of(node)), 'bytes'),), 'int')
            if v == s:
                continue
            ip.register(s)
            if s not in lin_of(v):
                # the name is still that of an earlier message's position: nothing of that holds for this one
                for k in [k for k in st.facts if any(isinstance(t, tuple) and any(x == s for x in walk(t)) for t in k[1:])]:
                    del st.facts[k]
                ip.rename_quantity(st, {s: Fraction(1)}, S('len', (S('prefix', (K(q + ' before'), site_of(node)), 'bytes'),), 'int'))
            ip.rename_quantity(st, lin_of(v), s)

    def alloc(self, ip, cls, ref, st, site):
        if ip.cls_name(cls, st) == 'PoolManager' and self.watch:
            self.managers.append((site, st))

    # ---- the end of the call
    def end(self, ip, ok, v, st):
        where = FILE if ok else exc_site(v, st)
        self.settled(ip, where, st)
        if ok and self.how == 'sync':
            self.result(ip, v, st)
        if ok and self.how == 'oneway':
            if 'C22' in self.r:
                self.r['C22'].check(v == NONE, 'one-way calls return no content', FILE, 'a one-way call returns %s' % show(v), st)
            if not self.complete(ip, st):
                self.fail('C11', 'every frame is sent whole', FILE, 'a one-way call ends before its request was accepted', st)
                self.fail('C18', 'a call that is not sent raises', FILE, 'a one-way call returns although its request was not sent', st)
        if not ok and 'C18' in self.r:
            c = ip.exc_class(v, st) if v[0] != 'ABORT' else None
            good = c is not None and any(ip.is_sub(c, b, st) for b in [X(n) for n in NAMING] + list(self.lib.values()))
            self.r['C18'].check(good, 'failures are errors that name the failure', where, 'the call raises %s' % exc_name(ip, v, st), st)
            if good and self.flagged(ip, st) and not ip.is_sub(c, self.lib['ServerError'], st) and not ip.is_sub(c, self.lib['DecodeError'], st):
                self.fail('C18', 'failure responses raise ServerError', where, 'a failure response raises %s' % exc_name(ip, v, st), st)

    def settled(self, ip, where, st):
        if 'C26' not in self.r:
            return
        for c in self.conns(st):
            sock, cl, n, d = c[1]
            self.r['C26'].check(cl != FALSE or n != ZERO, 'the connection of a call is returned or discarded', where,
                                'the call ends with a connection that was neither returned to the pool nor closed', st)
            self.r['C26'].check(cl == FALSE or n == ZERO, 'the connection of a call is not both returned and discarded', where,
                                'the call ends with a connection that was both returned to the pool and closed', st)

    def flagged(self, ip, st):
        """a complete response to this call with a failure status"""
        if st.rs.get('resp') is None or st.rs.get('rid') is None:
            return False
        st = self.as_settled(ip, st)
        a = Answer(st.rs['resp'])
        k = ip.eq_key(a.status, ZERO)
        f = ip.know(k[0], st)
        return f is not None and f != k[1] and same(ip, a.rid, st.rs['rid'], st) and ip.know_pos(lin_add(a.total, lin_of(st.rs['pos']), -1), st) is False

    def result(self, ip, v, st):
        if st.rs.get('resp') is None or st.rs.get('rid') is None:
            self.fail('C18', 'content comes from a SUCCESS response', FILE, 'the call returns %s without a response' % show(v), st)
            self.fail('C16', 'content comes from the response to this call', FILE, 'the call returns %s without a response' % show(v), st)
            return
        st = self.as_settled(ip, st)
        a = Answer(st.rs['resp'])
        self.count('results')
        if 'C16' in self.r:
            self.r['C16'].check(same(ip, a.rid, st.rs['rid'], st), 'content comes from the response to this call', FILE,
                                'content is returned from a response whose request id was not compared with that of the call', st)
            self.r['C16'].check(same(ip, v, a.content, st) or v == K(b'') and ip.know_pos({a.ctl: Fraction(1)}, st) is False, 'the content is that of the response', FILE, 'the call returns %s instead of the content' % show(v), st)
            self.r['C16'].check(ip.know_pos(lin_add(a.total, lin_of(st.rs['pos']), -1), st) is False, 'the whole response was read', FILE,
                                'the call returns before the whole response was read', st)
        if 'C18' in self.r:
            self.r['C18'].check(same(ip, a.status, ZERO, st), 'content comes from a SUCCESS response', FILE,
                                'content is returned from a response that may not be a SUCCESS', st)


def started(sc, mon):
    """a client and the span context of a call"""
    cs = [(v, s) for o, v, s in sc.run('build') if o]
    if not cs:
        raise Broken('no path builds a client')
    c, st = cs[0]
    st.rs['c'] = c
    xs = [(v, s) for o, v, s in sc.run('ctx', st=st, tid=K('0a1b')) if o]
    if not xs:
        raise Broken('no path builds a span context')
    ctx, st = xs[0]
    return c, ctx, st


def client(rules, how, lossy=True):
    """lossy: sends may fail, and so does every wait for a response"""
    mon = ClientMon(rules)
    mon.lossy = mon.cut = lossy
    if how == 'oneway':
        mon.cut = False
    mon.how = how
    mon.watch = False
    sc = Scenario('bclient', SETUP, mon, thread='caller')
    ns = sc.module()
    mon.lib = {k: ns[k] for k in ('PyboltError', 'ClientError', 'ServerError', 'DecodeError', 'MysockpoolError')}
    c, ctx, st = started(sc, mon)
    st.rs.clear()
    mon.watch = True
    kw = dict(c=c, ctx=ctx, content=CONTENT, app=K('tgt'), uid=K('u1'))
    if how == 'sync':
        kw['timeout'] = TMO if 'C24' in rules else K(3000)
    outs = sc.run(how, st=st, **kw)
    for ok, v, s in outs:
        mon.end(sc.ip, ok, v, s)
    return sc, mon, outs


def exactly(r):
    """the exact-size read of a pooled connection"""
    mon = ClientMon({'C13': r})
    mon.lossy = mon.cut = False
    mon.how = 'sync'
    sc = Scenario('exact', SETUP, mon, thread='caller')
    ks = [(v, s) for o, v, s in sc.run('key', host=K('127.0.0.1'), port=K(12220)) if o]
    cs = [(v, s) for o, v, s in sc.run('conn', st=ks[0][1], k=ks[0][0]) if o] if ks else []
    if not cs:
        raise Broken('no path builds a connection')
    c, st = cs[0]
    mon.watch = True
    n = sym('n', 'int')
    st = st.clone()
    outs = sc.run('exact', st=st, conn=c, n=n)
    if not mon.counts.get('reads at the end') and not r.findings:
        raise Broken('the exact-size read never reads')
    r.ok('the exact-size read ends when the peer closes the connection', len(outs))
    r.ran(sc, 'exact-size read', len(outs), **mon.counts)


def managers(r):
    """does a call build its own pool manager"""
    mon = ClientMon({})
    mon.how, mon.dial = 'sync', False
    sc = Scenario('bclient', SETUP, mon, thread='caller')
    c, ctx, st = started(sc, mon)
    mon.watch = True
    outs = sc.run('sync', st=st, c=c, ctx=ctx, content=CONTENT, app=K('tgt'), uid=K('u1'), timeout=TMO)
    if not mon.counts.get('dials'):
        raise Broken('the blocking client never dials')
    for site, s in mon.managers:
        r.fail('calls go through a pool manager that outlives the call', site, 'a call builds a pool manager of its own', s)
    if not mon.managers:
        r.ok('calls go through a pool manager that outlives the call')
    r.ran(sc, 'blocking call', len(outs), **mon.counts)
