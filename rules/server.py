"""C06-C12, C15, C24, C33, C38: the two servers."""
from .base import *
from .block import Blocking, Touches
import ast

from pysa.m_lib import AWAIT, ext_obj, arg, call_in, as_future, await_ext

CONN_ERR = 'builtins.ConnectionError'
REQ, ONEWAY, HEARTBEAT, RESPCMD = 'request', 'one-way', 'heartbeat', 'response command'
KINDS = {REQ: (1, 1), ONEWAY: (2, 1), HEARTBEAT: (1, 0), RESPCMD: (1, 2)}
ST = PUBLISHED['RESPSTATUS']
FAILURES = set(ST.values()) - {0}
SHAPED = {ST['NO_PROCESSOR'], ST['TIMEOUT'], ST['CODEC_EXCEPTION'], ST['CLIENT_SEND_ERROR']}
A, B_ = 'com.svc.A', 'com.svc.B'

SETUP = '''
from anthunder import AioListener, SockListener
from anthunder.protocol.exceptions import DecodeError
from anthunder.listener.base_listener import NoProcessorError
from anthunder.exceptions import PyboltError, ClientError, ServerError
def aio(addr, factory_a, factory_b, extra, kw):
    l = AioListener(addr, 'app')
    l.handler.register_interface('com.svc.A', factory_a)
    if kw is not None:
        l.handler.register_interface('com.svc.B', factory_b, extra, key=kw)
    l.run_forever()
def sock(addr, factory_a, factory_b, extra, kw):
    l = SockListener(addr, 'app')
    l.handler.register_interface('com.svc.A', factory_a)
    if kw is not None:
        l.handler.register_interface('com.svc.B', factory_b, extra, key=kw)
    l.run_forever()
'''
ADDR = T(K('127.0.0.1'), K(12199))
FA, FB, EXTRA, KW = sym('factory_a'), sym('factory_b'), sym('extra'), sym('kw')


def truth(ip, v, st):
    """is v true: True, False or None (unknown)"""
    r = {b for b, _ in ip.test(v, st.clone())}
    return r.pop() if len(r) == 1 else None


class Wire(object):
    """terms of the frame being read"""

    def __init__(self, frame):
        u = lambda off, code: S('unp', (frame, K(off), '>', code), 'int')
        self.frame = frame
        self.ptype, self.cmd, self.rid, self.timeout = u(1, 'b'), u(2, 'h'), u(5, 'i'), u(10, 'i')
        self.cl, self.hl, self.ctl = u(14, 'H'), u(16, 'H'), u(18, 'I')
        d = {None: Fraction(22)}
        for x in (self.cl, self.hl, self.ctl):
            d[x] = Fraction(1)
        self.total = d
        self.header_off = lin_val(lin_add({None: Fraction(22)}, {self.cl: Fraction(1)}))
        self.content_off = lin_val({None: Fraction(22), self.cl: Fraction(1), self.hl: Fraction(1)})
        self.class_ = S('sl', (frame, K(22), self.cl), 'bytes')
        self.header = S('sl', (frame, self.header_off, self.hl), 'bytes')
        self.content = S('sl', (frame, self.content_off, self.ctl), 'bytes')


def take(ip, parts, size):
    """the value of the next field of size bytes, or None"""
    if not parts:
        return None
    p = parts[0]
    if p[0] == 'S' and p[1] == 'fld' and const(p[2][3]) == (True, size) and (size == 1 or p[2][0] == '>'):
        parts.pop(0)
        return p[2][2]
    if p[0] == 'K' and isinstance(p[2], bytes) and len(p[2]) >= size:
        v = int.from_bytes(p[2][:size], 'big', signed=True)
        parts[0:1] = [K(p[2][size:])] if len(p[2]) > size else []
        return K(v)
    # raw bytes of a received frame
    if p[0] == 'S' and p[1] == 'sl' and const(p[2][2]) == (True, size) if p[0] == 'S' and p[1] == 'sl' and p[2][2] else False:
        parts.pop(0)
        return S('unp', (p[2][0], p[2][1], '>', {1: 'b', 2: 'h', 4: 'i'}[size]), 'int')
    return None


class Reply(object):
    def __init__(self, ip, data, st, fields):
        self.ok = False
        c = Cursor(ip, data, st)
        self.f = {}
        for n, size in fields:
            v = take(ip, c.parts, size)
            if v is None:
                return
            self.f[n] = v
        body = {}
        for p in c.parts:
            l = ip.length_of(p, st)
            if l is None:
                return
            body = lin_add(body, l)
        want = {}
        for n in ('class_len', 'header_len', 'content_len'):
            l = lin_of(unwrap(self.f[n]))
            if l is None:
                return
            want = lin_add(want, l)
        d = lin_add(body, want, -1)
        self.whole = not any(d.values()) or same(ip, lin_val(body), lin_val(want), st)
        self.rest = c.parts
        self.ok = True


class ServerMon(Monitor, Blocking):
    """common to both servers: frames in, replies out, the service"""

    def __init__(self, rules):
        Blocking.__init__(self)
        self.r = rules            # Rule objects by property id (only those asked for)
        self.shared = set()       # (oid, attribute) of long-lived objects written while serving
        self.live = frozenset()   # objects that exist before the connection
        self.start = None
        self.oneway_ran = False
        self.active = False
        self.counts = {}
        self.nondet = True

    # ---- helpers
    def fail(self, pid, rule, where, msg, st):
        if pid in self.r:
            self.r[pid].fail(rule, where, msg, st)

    def ok(self, pid, text):
        if pid in self.r:
            self.r[pid].ok(text)

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def get(self, st, k, d=None):
        v = st.rs.get(k)
        return d if v is None else v

    def put(self, st, **kw):
        for k, v in kw.items():
            if v is None:
                st.rs.pop(k, None)
            else:
                st.rs[k] = v

    def flag(self, st, k):
        return st.rs.get(k) == TRUE

    def wire(self, st):
        f = st.rs.get('f')
        return Wire(f) if f is not None else None

    def kind(self, st):
        k = st.rs.get('kind')
        return k[2] if k else None

    def summary(self, info):
        return 'exact' if info.qual.endswith('SofaHeader.from_bytes') else 'class' if info.qual.endswith('MyTracer.extract') else None

    def keep_fact(self, key):
        for t in key[1:]:
            if isinstance(t, tuple):
                for x in walk(t):
                    if x and x[0] == 'S' and len(x) == 5 and x[1] == 'frame' and x[4] == 0:
                        return not any(y and y[0] == 'S' and len(y) == 5 and (y[1] in ('phi', 'elem', 'elemkey') or y[4]) for t2 in key[1:] if isinstance(t2, tuple) for y in walk(t2))
        return False

    def havoc(self, ip, st):
        if not self.active:
            return
        for oid, name in sorted(self.shared, key=repr):
            o = st.obj(('O', oid))
            if o is None:
                continue
            v = S('other', (K(name),), typeof(o.f[name]) if name in o.f else None)
            if o.f.get(name) != v:
                st.put(('O', oid), o.set(name, v))

    def store_attr(self, ip, ref, name, val, st):
        if self.active and ref[1] in self.live:
            if (ref[1], name) not in self.shared:
                self.shared.add((ref[1], name))
                self.grew = True

    # ---- the input stream
    def read(self, ip, recv, n, st, site, exact):
        """outcomes of reading n bytes (exactly, or at most)"""
        self.count('reads')
        out = []
        s_eof, s_err = st.clone(), st.clone()
        c = self.get(st, 'c', ZERO)
        if st.rs.get('f') is None:
            frame = S('frame', (recv,), 'bytes')
            for l in self.frame_loops(ip):
                ip.created.setdefault(l, set()).add(frame)
            kinds = list(KINDS)
        else:
            frame, kinds = st.rs['f'], [None]
        if exact:
            got = n
        else:
            got = ip.fresh('got', (recv, c), 'int', site)
        for k in kinds:
            s = st.clone() if len(kinds) > 1 else st
            if k is not None:
                self.put(s, f=frame, kind=K(k), limit=None)
                self.begin(ip, s)
                w = Wire(frame)
                for term, val, codes in ((w.ptype, KINDS[k][0], 'bB'), (w.cmd, KINDS[k][1], 'hH')):
                    for code in codes:
                        t = S('unp', term[2][:3] + (code,), 'int')
                        key = ip.eq_key(t, K(val))
                        s.facts[key[0]] = key[1]
                s.note('%s a %s frame begins' % (site, k))
            data = S('sl', (frame, c, got), 'bytes')
            if got == ZERO:
                data = K(b'')
            nc = lin_val(lin_add(lin_of(c), lin_of(got)))
            w = Wire(frame)
            if same(ip, nc, lin_val(w.total), s):
                self.put(s, whole=TRUE)
                self.complete(ip, s, site)
            elif self.flag(s, 'whole') and not same(ip, got, ZERO, s):
                self.fail('C06', 'no byte beyond the frame is read', site, 'reads %s bytes after the whole frame was read' % show(n), s)
            self.put(s, c=nc)
            out.append((True, data, s))
        self.end_of_input(ip, out, n, s_eof, s_err, site, exact)
        return out

    def frame_loops(self, ip):
        return ip.loops[:1]

    def begin(self, ip, st):
        pass

    def complete(self, ip, st, site):
        self.count('frames')

    # ---- output
    def wrote(self, ip, data, st, site):
        self.count('writes')
        if self.flag(st, 'lost'):
            return
        kind, w = self.kind(st), self.wire(st)
        n = {None: 1, ONE: 2, K(2): 2}[st.rs.get('rep')]
        self.put(st, rep=K(n))
        rep = Reply(ip, data, st, RESP)
        if not rep.ok or not rep.whole:
            self.fail('C11', 'every write is one whole frame', site, 'writes %s, which is not one whole frame' % show(data, 3)[:200], st)
            self.fail('C07', 'replies carry the id of their request', site, 'writes something that is not a reply frame', st)
            if kind == ONEWAY:
                self.fail('C09', 'one-way requests are not answered', site, 'writes to the connection while serving a one-way request', st)
            return
        self.ok('C11', 'every write is one whole frame')
        rid = unwrap(rep.f['request_id'])
        if w is None or not same(ip, rid, w.rid, st):
            self.fail('C07', 'replies carry the id of their request', site,
                      'the reply carries %s instead of the request id of its frame' % show(rid), st)
        else:
            self.ok('C07', 'replies carry the id of their request')
        if kind == ONEWAY:
            self.fail('C09', 'one-way requests are not answered', site, 'a reply is written for a one-way request', st)
        if n > 1 and kind in (REQ, HEARTBEAT, RESPCMD):
            self.fail('C08', 'at most one reply', site, 'a second reply is written for one %s frame' % kind, st)
        self.status(ip, rep, st, site, kind, w)

    def status(self, ip, rep, st, site, kind, w):
        s = unwrap(rep.f['respstatus'])
        cmd = unwrap(rep.f['cmdcode'])
        if self.flag(st, 'eof') and not self.flag(st, 'whole'):
            if 'C10' in self.r:
                self.r['C10'].check(is_k(s, int) and s[2] in FAILURES, 'an incomplete frame is not answered with success', site,
                                    'status %s for a frame that was cut short' % show(s), st)
            return
        if kind == HEARTBEAT:
            dec = self.flag(st, 'dec')
            good = (s == ZERO and cmd == ZERO) or (dec and s[0] == 'K' and s[2] != 0)
            if 'C10' in self.r:
                self.r['C10'].check(good, 'a heartbeat is acknowledged', site, 'a heartbeat is answered with status %s, command %s' % (show(s), show(cmd)), st)
            return
        if not is_k(s, int):
            self.fail('C10', 'reply status', site, 'the status is %s' % show(s), st)
            return
        allowed, why, content = self.expected(ip, st, w, kind)
        s = s[2]
        if s not in allowed:
            names = {v: k for k, v in ST.items()}
            self.fail('C10', 'reply status', site, '%s: answered with %s' % (why, names.get(s, s)), st)
        else:
            self.ok('C10', 'status: ' + why.split(':')[0])
        if s == 0 and content is not None:
            got = lin_of(unwrap(rep.f['content_len']))
            rest = cat([p for p in rep.rest], 'bytes')
            want = cat([K(RESPONSE_CLASS), content], 'bytes')
            good = same(ip, rest, want, st) or [unwrap(p) for p in parts_of(rest)] == [unwrap(p) for p in parts_of(want)]
            for pid in ('C38', 'C10'):
                if pid in self.r:
                    self.r[pid].check(good, 'a successful reply carries what the service returned', site,
                                      'the reply carries %s' % show(rest, 3)[:200], st)

    def expected(self, ip, st, w, kind):
        """allowed statuses, reason, content of a successful reply"""
        other = FAILURES - SHAPED
        cls = self.class_ok(ip, st, w)
        if self.flag(st, 'dec'):
            a = {ST['CODEC_EXCEPTION']}
            if kind == RESPCMD or cls is not True:
                a.add(ST['CLIENT_SEND_ERROR'])
            return a, 'undecodable header map', None
        if kind == RESPCMD:
            return {ST['CLIENT_SEND_ERROR']}, 'wrong command', None
        if cls is False:
            return {ST['CLIENT_SEND_ERROR']}, 'wrong class name', None
        if self.flag(st, 'to'):
            return {ST['TIMEOUT']}, 'out of time or cancelled', None
        run = st.rs.get('run')
        if run is not None and run[0] == 'T':
            if run[1][0] == TRUE:
                if self.flag(st, 'encfail'):
                    return other, 'a result that can not be encoded', None
                return {0}, 'success', run[1][1]
            e = run[1][1]
            a = set(other)
            for c in ('builtins.TimeoutError', 'asyncio.CancelledError', 'concurrent.futures.CancelledError'):
                if exc_is(ip, e, X(c), st):
                    a = {ST['TIMEOUT']}
                    a |= other
            return a, 'the service raised', None
        fac = st.rs.get('fac')
        if fac is not None:
            if fac[1][0] == TRUE:
                if not self.flag(st, 'noattr'):
                    a = {ST['CLIENT_SEND_ERROR']} | (set(other) if self.flag(st, 'exc') else set())
                    return a, 'method name missing', None
                return {ST['NO_PROCESSOR']}, 'no such method', None
            a = set(other)
            if exc_is(ip, fac[1][1], self.lib['NoProcessorError'], st):
                a.add(ST['NO_PROCESSOR'])
            return a, 'the service factory raised', None
        if self.flag(st, 'nosvc'):
            return {ST['NO_PROCESSOR']}, 'no such service', None
        if self.flag(st, 'exc'):
            return other, 'another failure', None
        return {ST['CLIENT_SEND_ERROR']}, 'missing names', None

    def class_ok(self, ip, st, w):
        if w is None:
            return None
        k = ip.eq_key(w.class_, K(REQUEST_CLASS))
        r = ip.know(k[0], st)
        if r is None:
            kl = ip.eq_key(w.cl, K(len(REQUEST_CLASS)))
            r2 = ip.know(kl[0], st)
            if r2 is not None and r2 != kl[1]:
                return False
            return None
        return r == k[1]

    # ---- the service
    def ext_call(self, ip, name, args, kw, st, site):
        if name == 'asyncio.start_server' or name == 'socketserver.ThreadingTCPServer' or name == 'new:server':
            self.capture(ip, name, args, kw, st)
        if not self.active:
            return self.quiet(ip, name, args, kw, st, site)
        if 'C12' in self.r and ip.thread == 'loop':
            self.awaited(name, args, st)
            why = self.blocks(ip, name, args, kw, st, site)
            self.count('calls on the loop thread')
            if why:
                self.r['C12'].fail('nothing blocks the loop thread', site, '%s on the event loop thread' % why, st)
        if 'C24' in self.r:
            self.limited(ip, name, args, st, site)
        if name == 'call:':
            r = self.called(ip, args[0], args[1:], kw, st, site)
            if r is not None:
                return r
        return self.io(ip, name, args, kw, st, site)

    def limited(self, ip, name, args, st, site):
        """how long the server waits for the result of a service"""
        if name == 'asyncio.wait_for!':
            st.rs['limit'] = args[1]
        if name == 'await:future' and args[0][0] == 'FUT' and st.rs.get('run') is not None and args[0][2] == st.rs['run'][1][1]:
            self.count('waits for a service')
            w = self.wire(st)
            limit = st.rs.pop('limit', NONE)
            a = lin_of(w.timeout) if w is not None else None
            if a is None:
                return
            r, pos = self.r['C24'], ip.know_pos(a, st)
            if limit == NONE:
                r.check(pos is False, 'a service run is unlimited only if no timeout is announced', site,
                        'the server waits for a service without a limit although the announced timeout may be positive', st)
            else:
                r.check(pos is True, 'a service run is limited only if a timeout is announced', site,
                        'the server limits a service run (to %s) although the announced timeout may not be positive' % show(limit), st)
                l = lin_of(limit)
                r.check(l is not None and lin_const(lin_add(l, a, -Fraction(1, 1000))) == 0, 'a service run is limited to the announced milliseconds', site,
                        'the server limits a service run to %s seconds' % show(limit), st)

    def quiet(self, ip, name, args, kw, st, site):
        if name.startswith('requests.') or name.startswith('new:Mesh') or name.startswith('requests.session'):
            return None
        return None

    def io(self, ip, name, args, kw, st, site):
        return None

    def capture(self, ip, name, args, kw, st):
        pass

    def called(self, ip, f, args, kw, st, site):
        if f in (FA, FB):
            self.count('factory calls')
            w = self.wire(st)
            which = 'com.svc.A' if f == FA else 'com.svc.B'
            if 'C38' in self.r:
                r = self.r['C38']
                r.check(st.rs.get('fac') is None, 'one service object per request', site, 'the service factory is called again for one request', st)
                want = (1, ()) if f == FA else (2, (('key', KW),))
                r.check(len(args) == want[0] and tuple(kw) == want[1] and (f == FA or args[1] == EXTRA), 'the factory gets the registered extra arguments', site,
                        'the factory of %s is called with %s %s' % (which, [show(a) for a in args], [(k, show(v)) for k, v in kw]), st)
                self.check_ctx(ip, r, args[0] if args else NONE, st, site)
                self.check_service(ip, r, which, st, site)
            if 'C33' in self.r:
                self.check_ctx(ip, self.r['C33'], args[0] if args else NONE, st, site)
            if 'C10' in self.r and self.kind(st) in (REQ, ONEWAY):
                self.r['C10'].check(self.class_ok(ip, st, w) is True, 'a service is only created for a request of the right class', site,
                                    'the class name of the request was not found to be the request class', st)
            if self.kind(st) in (HEARTBEAT, RESPCMD):
                for pid in ('C38', 'C10', 'C08'):
                    self.fail(pid, 'only requests are dispatched', site, 'a %s frame is dispatched to a service' % self.kind(st), st)
            s2 = st.clone()
            obj = ip.fresh('svcobj', (f,), None, site)
            e = ip.any_exc('builtins.Exception', ('factory',))
            self.put(st, fac=T(TRUE, obj))
            self.put(s2, fac=T(FALSE, e))
            s2.note('%s the service factory raises' % site)
            return [(True, obj, st), (False, e, s2)]
        if f[0] == 'S' and f[1] == 'attr' and f[2][0][0] == 'S' and f[2][0][1] == 'svcobj':
            self.count('method calls')
            w = self.wire(st)
            if 'C12' in self.r:
                self.r['C12'].check(ip.thread != 'loop', 'the service method runs on a worker thread', site,
                                    'the service method is called on the %s thread' % ip.thread, st)
            if 'C38' in self.r:
                r = self.r['C38']
                r.check(st.rs.get('run') is None, 'the method is called at most once', site, 'the service method is called again for one request', st)
                r.check(st.rs.get('fac') == T(TRUE, f[2][0]), 'the method of the request\'s own service object is called', site, 'method of another object', st)
                good = len(args) == 1 and not kw and w is not None and (args[0] == w.content or self.is_content(ip, args[0], w, st))
                r.check(good, 'the method gets exactly the content of its request', site, 'the method is called with %s' % [show(a, 3) for a in args], st)
                self.check_method(ip, r, f[2][1], st, site)
            if self.flag(st, 'svc_done'):
                pass
            s2 = st.clone()
            res = ip.fresh('svcresult', (f[2][0],), None, site)
            e = ip.any_exc('builtins.Exception', ('service',))
            self.put(st, run=T(TRUE, res))
            self.put(s2, run=T(FALSE, e))
            s2.note('%s the service method raises' % site)
            return [(True, res, st), (False, e, s2)]
        return None

    def is_content(self, ip, v, w, st):
        if v[0] == 'K' and v[2] == b'':
            return ip.know_pos(lin_of(w.ctl), st) is False or bool(st.facts.get(('eq0', w.ctl)))
        v = unwrap(v)
        if v[0] == 'S' and v[1] == 'sl' and v[2][0] == w.frame:
            return same(ip, v[2][1], w.content_off, st) and v[2][2] is not None and same(ip, v[2][2], w.ctl, st)
        return False

    NAME_KEYS = {'service': ('sofa_head_target_service', 'service'), 'method': ('sofa_head_method_name',)}

    def header_item(self, v, st):
        """the header key whose value v is, if it is a value of the decoded header map"""
        if v[0] == 'S' and v[1] == 'item' and v[2][1][0] == 'K':
            return v[2][1][2]
        return None

    def check_service(self, ip, r, which, st, site):
        # the looked-up name is the requested one: an item of the header equal to the registered name
        key = st.rs.get('key')
        if key is None:
            r.fail('the factory is that of the requested interface', site, 'the factory is called without looking the interface up', st)
            return
        k = key[1][0]
        n = self.header_item(k, st)
        eq = ip.eq_key(k, K(which))
        good = n in self.NAME_KEYS['service'] and (eq is True or isinstance(eq, tuple) and ip.know(eq[0], st) == eq[1])
        r.check(good, 'the factory is that of the requested interface', site,
                'the factory of %s is used for the interface named %s' % (which, show(k)), st)

    def check_method(self, ip, r, name, st, site):
        good = self.header_item(name, st) in self.NAME_KEYS['method'] and truth(ip, name, st) is True
        r.check(good, 'the requested method is called', site, 'the method called is named %s' % show(name), st)

    def check_ctx(self, ip, r, ctx, st, site):
        o = st.obj(ctx) if ctx[0] == 'O' else None
        good, w = False, self.wire(st)
        if o is not None and o.m.get('made') and w is not None:
            for a in o.m['made'][1]:
                h = st.obj(a) if a[0] == 'O' else None
                if h is not None and h.kind == 'dict':
                    good = good or any(w.header in k[2] for k, _, _ in h.m.get('gen') or () if k[0] == 'S')
        r.check(good, 'the factory gets the trace context of the request', site,
                'the context %s given to the factory is not extracted from the header of the request' % show(ctx), st)

    # ---- events
    def dict_event(self, ip, op, ref, key, val, st, site):
        if not self.active or key is None:
            return
        o = st.obj(ref)
        if o is None:
            return
        if any(k in (K(A), K(B_)) for k, _ in o.m.get('items') or ()):
            if op in ('get', 'getitem', 'in', 'pop', 'del', 'set', 'setdefault') or True:
                self.put(st, key=T(key))
                if 'C10' in self.r and self.kind(st) in (REQ, ONEWAY):
                    self.r['C10'].check(truth(ip, key, st) is True, 'a missing service name is not looked up', site,
                                        'the registry is searched for %s, which may be missing or empty' % show(key), st)
                    self.put(st, nosvc=TRUE)

    def raised(self, ip, exc, st, site):
        if not self.active or st.rs.get('f') is None:
            return
        if exc[0] == 'XC':
            d = exc[4] if len(exc) > 4 else ()
            if d and d[0] == 'wait_for':
                self.put(st, to=TRUE)
                return
            if exc[1] == X('builtins.AttributeError') and st.rs.get('fac') is not None and st.rs.get('run') is None:
                self.put(st, noattr=TRUE)
                return
        run = st.rs.get('run')
        if run is not None and run[1][0] == TRUE:
            self.put(st, encfail=TRUE)
            return
        de = self.lib.get('DecodeError')
        if de is not None and ip.is_sub(ip.exc_class(exc, st), de, st):
            if self.flag(st, 'whole') or True:
                self.put(st, dec=TRUE)
            return
        if st.rs.get('nosvc') is None:
            self.put(st, exc=TRUE)

    FLAGS = ('f', 'c', 'kind', 'whole', 'rep', 'dec', 'to', 'run', 'fac', 'key', 'nosvc', 'exc', 'noattr', 'encfail', 'limit')

    def frame_over(self, ip, st, site):
        """accounts for a frame that was served; forget it"""
        kind = self.kind(st)
        if st.rs.get('f') is not None:
            whole = self.flag(st, 'whole')
            rep = {None: 0, ONE: 1, K(2): 2}[st.rs.get('rep')]
            if whole and kind in (REQ, HEARTBEAT, RESPCMD) and not self.flag(st, 'lost'):
                if rep == 0:
                    self.fail('C08', 'a complete frame is answered', site, 'a %s frame is never answered (%s)' % (kind, self.cause(st)), st)
                else:
                    self.ok('C08', 'a complete %s frame is answered once' % kind)
            if whole and kind == ONEWAY and rep == 0:
                self.ok('C09', 'a one-way request is not answered')
            if whole and kind == ONEWAY and st.rs.get('run') is not None:
                self.ok('C09', 'the service runs for a one-way request')
                self.oneway_ran = True

    def cause(self, st):
        for k, t in (('dec', 'undecodable header map'), ('to', 'timed out'), ('run', 'after the service ran'), ('fac', 'after the factory ran'),
                     ('nosvc', 'after the service lookup'), ('exc', 'after an error')):
            if st.rs.get(k) is not None:
                return t
        return 'directly'


RESP = (('proto', 1), ('ptype', 1), ('cmdcode', 2), ('ver2', 1), ('request_id', 4), ('codec', 1), ('respstatus', 2),
        ('class_len', 2), ('header_len', 2), ('content_len', 4))


class AioMon(ServerMon):
    def __init__(self, rules):
        super(AioMon, self).__init__(rules)
        self.starts = []
        self.tasks = 0

    def capture(self, ip, name, args, kw, st):
        if name == 'asyncio.start_server':
            self.starts.append((args[0], st.clone()))

    def end_of_input(self, ip, out, n, s_eof, s_err, site, exact):
        self.put(s_eof, eof=TRUE)
        if exact:
            out.append(ip.raise_('asyncio.IncompleteReadError', s_eof, site))
        else:
            out.append((True, K(b''), s_eof))
        self.put(s_err, lost=TRUE)
        s_err.note('%s the connection is lost' % site)
        out.append((False, ip.any_exc(CONN_ERR), s_err))

    def io(self, ip, name, args, kw, st, site):
        if name == 'await:asyncio.StreamReader.readexactly':
            return self.read(ip, args[0], arg(args, kw, 1, 'n'), st, site, True)
        if name in ('await:asyncio.StreamReader.read', 'await:asyncio.StreamReader.readline', 'await:asyncio.StreamReader.readuntil'):
            return self.read(ip, args[0], arg(args, kw, 1, 'n'), st, site, False)
        if name == 'asyncio.StreamWriter.write':
            self.wrote(ip, args[1], st, site)
            return [(True, NONE, st)]
        if name == 'asyncio.StreamWriter.writelines':
            o = st.obj(args[1]) if args[1][0] == 'O' else None
            parts = o.m.get('items') if o is not None else (args[1][1] if args[1][0] == 'T' else None)
            self.wrote(ip, cat(list(parts), 'bytes') if parts else args[1], st, site)
            return [(True, NONE, st)]
        if name == 'await:asyncio.StreamWriter.drain':
            if self.tasks:
                # a lost connection ends the connection loop; no reply of a task can arrive any more
                return [(True, NONE, st)]
            s2 = st.clone()
            self.put(s2, lost=TRUE)
            s2.note('%s the connection is lost' % site)
            return [(True, NONE, st), (False, ip.any_exc(CONN_ERR), s2)]
        if name in ('asyncio.StreamWriter.close', 'asyncio.StreamWriter.abort') or name.endswith('.transport.close') or name.endswith('.transport.abort'):
            self.put(st, closed=TRUE)
            return [(True, NONE, st)]
        if name.startswith('call:') and args and args[0][0] == 'S' and args[0][1] == 'attr' and args[0][2][1] in (K('close'), K('abort'), 'close', 'abort'):
            self.put(st, closed=TRUE)
        if name == 'await:future' and args[0][0] == 'FUT' and args[0][1] in ('ok', 'exc') and st.rs.get('run') is not None \
                and args[0][2] == st.rs['run'][1][1]:
            s2 = st.clone()
            e = ip.exc('asyncio.CancelledError', site, ('future cancelled',))
            self.put(s2, to=TRUE)
            s2.note('%s the future is cancelled' % site)
            return [(args[0][1] == 'ok', args[0][2], st), (False, e, s2)]
        return None

    def suspend(self, ip, st, name, args, site):
        self.havoc(ip, st)
        return [st]

    def spawn(self, ip, aw, st, how, site):
        """a task runs at any later time: what the connection loop assigns again is unknown to it"""
        if not self.active:
            return None
        self.spawned(how, site)
        self.havoc(ip, st)
        self.count('tasks')
        if aw[0] not in ('CO', 'AW') or self.tasks:
            return None
        par = aw[1][2] if aw[0] == 'CO' and aw[1][0] == 'F' else None
        saved = st.obj(par) if par else None
        if saved is not None and saved.kind == 'frame':
            names = loop_names(ip.prog.fns[saved.m['fn']])
            o = saved
            for n in names:
                if n in o.f:
                    o = o.set(n, S('other', (K(n),), typeof(o.f[n])))
            st.put(par, o)
        self.tasks += 1
        try:
            if aw[0] == 'CO':
                res = call_in(ip, st, None, lambda s: ip.run_coro(aw, s, site))
            else:
                res = call_in(ip, st, None, lambda s: await_ext(ip, aw, s, site))
        finally:
            self.tasks -= 1
        for _, _, s in res:
            if saved is not None:
                s.put(par, saved)
        return as_future(res, site)

    def backedge(self, ip, node, st):
        if not self.active or len(ip.loops) != 1:
            return
        site = site_of(node)
        self.count('iterations')
        w = self.wire(st)
        if w is None:
            self.fail('C06', 'an iteration consumes one whole frame', site, 'the connection loop goes round without reading', st) \
                if not self.flag(st, 'eof') else None
        else:
            c = self.get(st, 'c', ZERO)
            if same(ip, c, lin_val(w.total), st):
                self.ok('C06', 'an iteration consumes one whole frame')
            else:
                self.fail('C06', 'an iteration consumes one whole frame', site,
                          'goes on to the next frame after reading %s bytes instead of %s' % (show(c), show(lin_val(w.total))), st)
        if self.flag(st, 'eof'):
            self.fail('C06', 'an iteration consumes one whole frame', site, 'goes on after the end of the stream', st)
        self.frame_over(ip, st, site)
        for k in self.FLAGS:
            st.rs.pop(k, None)


def loop_names(info):
    """local names a function assigns inside a loop"""
    out = set()
    for n in ast.walk(info.node):
        if isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
    return sorted(out)


def site_of(node):
    return '%s:%d:%d' % (getattr(node, 'mod', '?'), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))


def aio_server(rules):
    """analyse the connection callback of the asyncio listener for the given Rule objects"""
    mon = AioMon(rules)
    sc = Scenario('aioserver', SETUP, mon, thread='caller')
    mon.lib = lib_of(sc)
    rs = sc.run('aio', addr=ADDR, factory_a=FA, factory_b=FB, extra=EXTRA, kw=KW if 'C38' in rules else NONE)
    if not mon.starts:
        raise Broken('the asyncio listener never calls asyncio.start_server')
    seen, runs = set(), []
    for cb, st in mon.starts:
        if cb in seen:
            continue
        seen.add(cb)
        runs.append((cb, st))
    for cb, st0 in runs:
        for attempt in range(4):
            mon.grew = False
            snapshot = {p: (list(r.findings), dict(r.obligations)) for p, r in rules.items()}
            mon.counts = {}
            outs = serve(sc, mon, cb, st0.clone())
            if not mon.grew:
                break
            for p, r in rules.items():
                r.findings, r.obligations = snapshot[p]
        for p, r in rules.items():
            r.ran(sc, 'asyncio connection', len(outs), **mon.counts)
    return sc, mon


def lib_of(sc):
    ns = sc.module()
    return {k: ns[k] for k in ('DecodeError', 'NoProcessorError', 'PyboltError', 'ClientError', 'ServerError') if k in ns}


def serve(sc, mon, cb, st):
    ip = sc.ip
    st.stack, st.tmp, st.locks, st.rs = (), (), (), {}
    mon.live = frozenset(st.heap) | frozenset(sc.prog.base)
    reader = ext_obj(ip, st, 'asyncio.StreamReader', 'conn')
    writer = ext_obj(ip, st, 'asyncio.StreamWriter', 'conn')
    mon.active = True
    old = ip.thread
    ip.thread = 'loop'
    out = []
    try:
        for ok, v, s in ip.call(cb, [reader, writer], [], st, '<connection>'):
            if ok and v[0] == 'CO':
                out.extend(ip.run_coro(v, s, '<connection>'))
            else:
                out.append((ok, v, s))
    finally:
        ip.thread = old
        mon.active = False
    for ok, v, s in out:
        where = exc_site(v, s) if not ok else cb_name(cb)
        mon.frame_over(ip, s, where)
        if 'C15' in mon.r:
            mon.r['C15'].check(mon.flag(s, 'closed') or mon.flag(s, 'lost'), 'the connection is closed when serving ends', where,
                               'stops serving%s without closing the connection' % ('' if ok else ' with an exception (%s)' % exc_name(ip, v, s)), s)
    return out


def cb_name(cb):
    f = cb[2] if cb[0] == 'B' else cb
    return str(f[1]) if f[0] == 'F' else 'connection callback'



# ---------------------------------------------------------------- the threaded server

class SockMon(ServerMon):
    def frame_loops(self, ip):
        return ()

    def __init__(self, rules):
        super(SockMon, self).__init__(rules)
        self.classes = set()
        self.starts = []

    def capture(self, ip, name, args, kw, st):
        for a in list(args) + [v for _, v in kw]:
            o = st.obj(a) if a[0] == 'O' else None
            if o is not None and o.kind == 'class':
                self.classes.add(a)
                return

    def ext_call(self, ip, name, args, kw, st, site):
        if not self.active:
            if name.startswith('socketserver.') and (name.endswith('Server') or name.endswith('Server.__init__')):
                self.capture(ip, name, args, kw, st)
            elif name.endswith('.serve_forever'):
                self.starts.extend((c, st.clone()) for c in sorted(self.classes) if st.obj(c) is not None)
            return None
        if name.startswith('socketserver.') and name.endswith('RequestHandler.__init__'):
            return self.handle(ip, args[0], st, site)
        return super(SockMon, self).ext_call(ip, name, args, kw, st, site)

    def handle(self, ip, h, st, site):
        """socketserver: setup(); try: handle() finally: finish()"""
        cls = st.obj(h).cls
        cur = [(True, NONE, st)]
        for m in ('setup', 'handle', 'finish'):
            found = ip.cls_lookup(cls, m, st)
            if not found or found[0][0] not in ('F', 'D'):
                continue
            nxt = []
            for k, v, s in cur:
                if not k and m == 'handle':
                    nxt.append((k, v, s))
                    continue
                for k2, v2, s2 in ip.bind(ip.getattr_(h, m, s, site), lambda f, q: ip.call(f, [], [], q, site)):
                    nxt.append((k and k2, v2 if not k2 else v, s2))
            cur = nxt
        return cur

    def end_of_input(self, ip, out, n, s_eof, s_err, site, exact):
        n0 = {None: 0, ONE: 1, K(2): 2, K(3): 3, K(4): 4}[s_eof.rs.get('eofs')]
        if n0 >= 3:
            self.fail('C13', 'reading stops at the end of the stream', site, 'reads again and again after the peer has closed the connection', s_eof)
            return
        s_eof.note('%s the peer has closed the connection' % site)
        if self.flag(s_eof, 'eof'):
            del out[:]
        elif s_eof.rs.get('f') is not None and 'C13' in self.r:
            s3 = s_eof.clone()
            got = ip.fresh('short', (self.get(s3, 'c', ZERO),), 'int', site)
            ip.set_fact(('pos', got), True, s3)
            less = lin_add(lin_of(n), lin_of(got), -1) if lin_of(n) is not None else None
            if less:
                t, v = ip.pos_key(less) or (None, None)
                if t:
                    ip.set_fact(t, v, s3)
            data = S('sl', (s3.rs['f'], self.get(s3, 'c', ZERO), got), 'bytes')
            self.put(s3, eof=TRUE, c=lin_val(lin_add(lin_of(self.get(s3, 'c', ZERO)), lin_of(got))))
            out.append((True, data, s3))
        self.put(s_eof, eof=TRUE, eofs=K(n0 + 1))
        self.count('reads at the end')
        out.append((True, K(b''), s_eof))
        self.put(s_err, lost=TRUE)
        s_err.note('%s the connection is lost' % site)
        out.append((False, ip.any_exc('builtins.OSError'), s_err))

    def io(self, ip, name, args, kw, st, site):
        self.havoc(ip, st)
        if name in ('rfile.read', 'socket.socket.recv'):
            return self.read(ip, args[0], arg(args, kw, 1, 'size'), st, site, name == 'rfile.read')
        if name in ('wfile.write', 'socket.socket.sendall', 'socket.socket.send'):
            s2 = st.clone()
            self.wrote(ip, args[1], st, site)
            self.put(s2, lost=TRUE)
            return [(True, NONE, st), (False, ip.any_exc('builtins.OSError'), s2)]
        return None

    def suspend(self, ip, st, name, args, site):
        return [st]


def serve_sock(sc, mon, cls, st):
    ip = sc.ip
    ip.UNDET_AFTER = 4
    st.stack, st.tmp, st.locks, st.rs = (), (), (), {}
    mon.live = frozenset(st.heap) | frozenset(sc.prog.base)
    sock = ext_obj(ip, st, 'socket.socket', 'conn')
    mon.active, old, ip.thread = True, ip.thread, 'worker'
    try:
        return ip.call(cls, [sock, T(K('peer'), K(1)), sym('server')], [], st, '<connection>')
    finally:
        mon.active, ip.thread = False, old


def sock_server(rules):
    mon = SockMon(rules)
    sc = Scenario('sockserver', SETUP, mon, thread='caller')
    mon.lib = lib_of(sc)
    sc.run('sock', addr=ADDR, factory_a=FA, factory_b=FB, extra=EXTRA, kw=KW if 'C38' in rules else NONE)
    if not mon.starts:
        raise Broken('the threaded listener never builds a socketserver server')
    seen = set()
    for cls, st0 in mon.starts:
        if cls in seen:
            continue
        seen.add(cls)
        for attempt in range(4):
            mon.grew = False
            snapshot = {p: (list(r.findings), dict(r.obligations)) for p, r in rules.items()}
            mon.counts = {}
            outs = serve_sock(sc, mon, cls, st0.clone())
            for ok, v, s in outs:
                mon.frame_over(sc.ip, s, exc_site(v, s) if not ok else 'connection handler')
            if not mon.grew:
                break
            for p, r in rules.items():
                r.findings, r.obligations = snapshot[p]
        for p, r in rules.items():
            r.ran(sc, 'threaded connection', len(outs), **mon.counts)
    return sc, mon


NEED = ('frames', 'writes', 'factory calls', 'method calls')


def need(r, mon, what):
    for n in what:
        if not mon.counts.get(n) and not r.findings:
            raise Broken('the server analysis saw no %s' % n)


def aio(pid):
    def f(r, tier):
        sc, mon = aio_server({pid: r})
        need(r, mon, NEED + (('waits for a service',) if pid == 'C24' else ()))
        if pid in ('C09',) and not r.findings:
            r.check(mon.oneway_ran, 'the service runs for a one-way request', 'anthunder/listener/aio_listener.py', 'no path runs the service for a one-way request')
    return f


def sock(pid):
    def f(r, tier):
        sc, mon = sock_server({pid: r})
        need(r, mon, NEED)
        if pid in ('C09',) and not r.findings:
            r.check(mon.oneway_ran, 'the service runs for a one-way request', 'anthunder/listener/sock_listener.py', 'no path runs the service for a one-way request')
        if pid == 'C13':
            need(r, mon, ('reads at the end',))
            for _ in range(mon.counts.get('reads at the end', 0)):
                r.ok('the threaded server leaves its reads at the end of the stream')
    return f


def two(pid):
    def f(r, tier):
        aio(pid)(r, tier)
        sock(pid)(r, tier)
    return f


c06, c08, c10, c11, c12, c15 = aio('C06'), aio('C08'), aio('C10'), aio('C11'), aio('C12'), aio('C15')
c13 = sock('C13')
c07, c09, c38 = two('C07'), two('C09'), two('C38')


# ---------------------------------------------------------------- C14: two listeners in one process

SETUP14 = '''
from anthunder import AioListener, SockListener
def build(kind, addr):
    return AioListener(addr, 'app') if kind == 'aio' else SockListener(addr, 'app')
def before(k1, k2, addr1, addr2, factory_a, factory_b):
    l1 = build(k1, addr1)
    l1.handler.register_interface('com.svc.A', factory_a)
    l2 = build(k2, addr2)
    l2.handler.register_interface('com.svc.B', factory_b)
    return l1, l2
def after(k1, k2, addr1, addr2, factory_a, factory_b):
    l1 = build(k1, addr1)
    l2 = build(k2, addr2)
    l2.handler.register_interface('com.svc.A', factory_b)
    l1.handler.register_interface('com.svc.A', factory_a)
    return l1, l2
def serve1(pair): pair[0].run_forever()
def serve2(pair): pair[1].run_forever()
def publish1(pair): pair[0].publish()
def publish2(pair): pair[1].publish()
'''
ADDR2 = T(K('127.0.0.1'), K(12200))


class TwoAio(AioMon):
    """which factories a connection can reach"""

    def called(self, ip, f, args, kw, st, site):
        if f in (FA, FB):
            self.count('factory calls')
            self.judge(f, st, site)
            e = ip.any_exc('builtins.Exception', ('factory',))
            return [(False, e, st)]
        return None


class TwoSock(SockMon):
    called = TwoAio.called


class Published(Monitor):
    def __init__(self):
        self.seen = []

    def ext_call(self, ip, name, args, kw, st, site):
        if name.rpartition('.')[2] == 'post':
            self.seen.append((site, set(names_in(list(args) + [v for _, v in kw], st))))
            s2 = st.clone()
            return [(True, ip.fresh('response', (), 'requests.Response', site), st), (False, ip.any_exc('requests.RequestException'), s2)]


def names_in(vals, st, depth=6):
    """interface names somewhere in these values"""
    seen, work = set(), list(vals)
    while work:
        v = work.pop()
        for x in walk(v):
            if x in (K(A), K(B_)):
                yield x[2]
            elif x and x[0] == 'O' and x not in seen:
                seen.add(x)
                o = st.obj(x)
                if o is not None and o.kind in ('dict', 'list', 'inst', 'set'):
                    work.extend(o.f.values())
                    for k in ('items', 'gen'):
                        for e in o.m.get(k) or ():
                            work.extend(y for y in (e if isinstance(e[0], tuple) else (e,)) if isinstance(y, tuple))


def c14(r, tier):
    jobs = []
    for how in ('before', 'after'):
        for k1 in ('aio', 'sock'):
            for k2 in ('aio', 'sock'):
                jobs.append(lambda q, how=how, k1=k1, k2=k2: two_listeners(q, how, k1, k2))
    r.parallel(jobs)


def two_listeners(r, how, k1, k2):
    cls = {'aio': TwoAio, 'sock': TwoSock}
    where = {'aio': 'anthunder/listener/aio_listener.py', 'sock': 'anthunder/listener/sock_listener.py'}
    for which, kind in ((1, k1), (2, k2)):
        own, other = (FA, FB) if which == 1 else (FB, FA)
        mon = cls[kind]({})
        sc = Scenario('two%s' % how, SETUP14, mon, thread='caller')
        mon.lib = {k: X('builtins.Exception') for k in ('DecodeError', 'NoProcessorError', 'PyboltError', 'ClientError', 'ServerError')}
        hits = []
        mon.judge = lambda f, st, site: hits.append((f, site, st))
        outs = sc.run(how, k1=K(k1), k2=K(k2), addr1=ADDR, addr2=ADDR2, factory_a=FA, factory_b=FB)
        pairs = [(v, s) for ok, v, s in outs if ok]
        if not pairs:
            raise Broken('no path builds two listeners')
        v, s = pairs[0]
        sc.run('serve%d' % which, st=s.clone(), pair=v)
        if not mon.starts:
            raise Broken('the listener is never started')
        if kind == 'aio':
            serve(sc, mon, mon.starts[0][0], mon.starts[0][1].clone())
        else:
            # every handler class that a server was built with
            serve_sock(sc, mon, mon.starts[which - 1 if len(mon.starts) > 1 and k1 == k2 else 0][0], mon.starts[0][1].clone())
        got = {f for f, _, _ in hits}
        for f, site, st in hits:
            if f == other:
                r.fail('registrations live per listener', site, 'a %s listener serves what was registered on another %s listener' % (kind, k2 if which == 1 else k1), st)
        if own not in got:
            r.fail('registrations live per listener', where[kind], 'the %s listener no longer serves its own registration once another %s listener exists' % (kind, k2 if which == 1 else k1))
        else:
            r.ok('a listener serves its own registrations only')
        pub = Published()
        sc2 = Scenario('twopub%s' % how, SETUP14, pub, thread='caller')
        for ok, v, s in sc2.run(how, k1=K(k1), k2=K(k2), addr1=ADDR, addr2=ADDR2, factory_a=FA, factory_b=FB):
            if not ok:
                continue
            pub.seen = []
            sc2.run('publish%d' % which, st=s.clone(), pair=v)
            want = A if which == 1 or how == 'after' else B_
            for site, names in pub.seen:
                r.check(names <= {want}, 'a listener publishes its own registrations only', site, 'publishes %s, which was registered on another listener' % sorted(names - {want}), s)
        r.ran(sc, '%s/%s %s, listener %d' % (k1, k2, how, which), len(outs), **mon.counts)


# ---------------------------------------------------------------- C20: the listener

TOUCH = '''
def make(addr, factory_a):
    l = AioListener(addr, 'app')
    l.handler.register_interface('com.svc.A', factory_a)
    return l
def loop(l): l.run_forever()
def stop(l): l.shutdown()
def announce(l): l.publish()
def revoke(l): l.unpublish()
def add(l, factory): l.handler.register_interface('com.svc.C', factory)
def init(l): l.initialize()
'''
ON_CALLERS = ('announce', 'revoke', 'add', 'init', 'stop')


class TouchAio(Touches, AioMon):
    def dict_event(self, ip, op, ref, key, val, st, site):
        self.touch(ip, ref, op, st, site)
        return AioMon.dict_event(self, ip, op, ref, key, val, st, site)

    def ext_call(self, ip, name, args, kw, st, site):
        self.used(ip, name, args, st, site)
        return AioMon.ext_call(self, ip, name, args, kw, st, site)

    def spawn(self, ip, aw, st, how, site):
        if self.watch and ip.thread != 'loop' and how in ('task', 'soon', 'later'):
            self.fail('C20', 'work is scheduled on the loop thread-safely', site, 'work is scheduled on the loop from another thread without waking it safely', st)
        elif self.watch and how == 'threadsafe':
            self.count('scheduled')
            self.ok('C20', 'work is scheduled on the loop thread-safely')
        return AioMon.spawn(self, ip, aw, st, how, site)

    def count(self, w):
        self.counts[w] = self.counts.get(w, 0) + 1


def touches(r):
    """the public methods of a running asyncio listener on another thread, and what its loop does"""
    mon = TouchAio({'C20': r})
    sc = Scenario('touch', SETUP + TOUCH, mon, thread='caller')
    mon.lib = lib_of(sc)
    ip = sc.ip
    made = [(v, s) for ok, v, s in sc.run('make', addr=ADDR, factory_a=FA) if ok]
    if not made:
        raise Broken('no path makes a listener')
    mesh = [(v, s) for v, s in made if attr_of(ip, v, '_mesh_client', s) not in (None, NONE)]
    l, st = (mesh or made)[0]
    st.rs = {'l': l}
    ip.thread = 'loop'
    ran = [s for ok, v, s in sc.run('loop', st=st, l=l) if ok]
    ip.thread = 'caller'
    if not ran or not mon.starts:
        raise Broken('the asyncio listener never serves')
    st = ran[0]
    mon.begin(sc, st)
    serve(sc, mon, mon.starts[0][0], st.clone())
    n = 0
    for m in ON_CALLERS:
        s = st.clone()
        s.stack, s.tmp, s.locks, s.rs = (), (), (), {'l': l}
        kw = {'factory': FB} if m == 'add' else {}
        n += len(sc.run(m, st=s, l=l, **kw))
    mon.settle(r, mon.touched)
    r.ok('public methods of the listener run on a caller thread', len(ON_CALLERS))
    if not mon.counts.get('scheduled') and not r.findings:
        raise Broken('the asyncio listener: shutting down schedules nothing')
    r.ran(sc, 'asyncio listener', n, **mon.counts)
