"""The asyncio client: C11, C12, C16-C24 (its part).

A call is analysed on its caller thread and, inline, on the loop. Wherever the coroutine of the call is suspended, the coroutine
that reads the connection runs as far as the frames of a plan take it (or until the connection is lost), and another call may
run to its end. The state of the client in between is that of the path, so the tables are what the code made of them.
"""
from .base import *
from .mesh import MeshMon
from .block import Blocking, Touches
from .server import Reply
from .bclient import REQF, Answer, summarised
from pysa.m_lib import arg
from pysa import m_bytes as mb

SETUP = '''
import anthunder
from anthunder import AioClient, SERVICE_MAP
from anthunder.protocol import BoltRequest
from anthunder.protocol.exceptions import DecodeError
from anthunder.exceptions import PyboltError, ClientError, ServerError
from mytracer import SpanContext
def build(): return AioClient('app')
def ctx(): return SpanContext(sofaTraceId='0a1b')
def sync(c, ctx, content, timeout): return c.invoke_sync('com.svc.A', 'method', content, spanctx=ctx, timeout_ms=timeout)
def other(c, ctx): return c.invoke_sync('com.svc.A', 'method', b'y', spanctx=ctx, timeout_ms=4000)
def oneway(c, ctx, content): return c.invoke_oneway('com.svc.A', 'method', content, spanctx=ctx)
def asyn(c, ctx, content): return c.invoke_async('com.svc.A', 'method', content, spanctx=ctx)
def asyncb(c, ctx, content, timeout, cb): return c.invoke_async('com.svc.A', 'method', content, spanctx=ctx, callback=cb, timeout_ms=timeout)
def sub(c): return c.subscribe('com.svc.A', 'com.svc.B')
def unsub(c): return c.unsubscribe('com.svc.A', 'com.svc.B')
def beat(c): return c.invoke_heartbeat(('127.0.0.1', 12220))
'''
FILE = 'anthunder/client/aio_client.py'
TMO = sym('timeout_ms', 'int')
CONTENT = sym('content', 'bytes')
NAMING = ('builtins.OSError', 'builtins.EOFError', 'builtins.TimeoutError', 'asyncio.CancelledError', 'concurrent.futures.CancelledError')
LOSS = {'eof': 'asyncio.IncompleteReadError', 'reset': 'builtins.ConnectionResetError', 'timeout': 'builtins.TimeoutError',
        'cancel': 'asyncio.CancelledError'}


class CallMon(MeshMon, Blocking):
    on = False

    def __init__(self, rules, **env):
        MeshMon.__init__(self, 'yes')
        Blocking.__init__(self)
        self.r = rules
        self.env = env
        if env.get('sends_fail') == 'always':
            self.maxrec = 40
        self.who = 'A'
        self.paused = []
        self.beats = []

    def fail(self, pid, rule, where, msg, st):
        if pid in self.r:
            self.r[pid].fail(rule, where, msg, st)

    def ok(self, pid, text):
        if pid in self.r:
            self.r[pid].ok(text)

    def summary(self, info):
        return summarised(info)

    def check(self, pid, cond, rule, where, msg, st):
        if pid in self.r:
            self.r[pid].check(cond, rule, where, msg, st)

    def keep_fact(self, key):
        for t in key[1:]:
            if isinstance(t, tuple) and t and any(x and x[0] == 'S' and len(x) == 5 and x[1] in ('resp', 'next') for x in walk(t)):
                return True
        return Keep.keep_fact(self, key)

    def enter(self, ip, info, st):
        # what is built for one frame is kept apart from what is built for the next
        n = st.rs.get('frames')
        if n is not None:
            ip.ctxid = ip._ctxids.setdefault(ip.ctx + (('frame', n[2]),), len(ip._ctxids))

    # ---- what belongs to the path
    def get(self, st, k, who=None):
        return st.rs.get('%s:%s' % (k, who or self.who))

    def set(self, st, k, v, who=None):
        st.rs['%s:%s' % (k, who or self.who)] = v

    def conns(self, st):
        v = st.rs.get('cx')
        return [x[1] for x in v[1]] if v is not None else []

    def conn(self, st, w):
        for c in self.conns(st):
            if c[0] == w or c[1] == w:
                return c

    def mark(self, st, w, status=None, co=None):
        out = []
        for c in self.conns(st):
            if c[0] == w:
                c = (c[0], c[1], co if co is not None else c[2], K(status) if status else c[3])
            out.append(T(*c))
        st.rs['cx'] = T(*out)

    def usable(self, c):
        return c[3] == K('open')

    # ---- tasks
    def spawn(self, ip, aw, st, how, site):
        if not self.on:
            if aw[0] == 'CO' and how in ('threadsafe', 'task'):
                self.beats.append((aw, st))
            return MeshMon.spawn(self, ip, aw, st, how, site)
        self.spawned(how, site)
        if how == 'threadsafe' and aw[0] in ('CO', 'AW'):
            return self.on_loop(ip, aw, st, site)
        if aw[0] == 'CO' and how == 'task':
            # the reader of a connection
            hit = [c for c in self.conns(st) if c[2] == NONE and any(x == c[1] for x in walk(aw))] or \
                [c for c in self.conns(st) if c[2] == NONE][-1:]
            if hit:
                self.count('reader tasks')
                self.mark(st, hit[0][0], co=aw)
                return [(True, ('FUT', 'ok', S('task', (hit[0][0],), None), site), st)]
        return None

    def rid_of(self, ip, aw, st):
        """the request id of the request that a coroutine was given"""
        for x in walk(aw):
            if x and x[0] == 'O' and len(x) == 2 and st.obj(x) is not None and st.obj(x).kind == 'inst':
                c = st.obj(x).cls
                if c is not None and ip.is_sub(c, self.lib['BoltRequest'], st):
                    return attr_of(ip, x, 'request_id', st)

    def on_loop(self, ip, aw, st, site):
        """the coroutine of a call: runs on the loop, may be cancelled at every suspension once the caller gave up"""
        rid = self.rid_of(ip, aw, st) if aw[0] == 'CO' else None
        if rid is not None:
            rid = unwrap(rid)
            self.set(st, 'rid', rid)
            # ids of different calls differ: that is what C37 is about
            for k in sorted(st.rs):
                if k[:4] == 'rid:' and k[4:] != self.who:
                    d = ip.eq_key(st.rs[k], rid)
                    if isinstance(d, tuple):
                        ip.set_fact(d[0], not d[1], st)
        old = (ip.thread, ip.cancel)
        ip.thread, ip.cancel = 'loop', (['call'] if self.env.get('cancel') and self.who == 'A' else [])
        st.tmp += (T(*st.locks),)
        st.locks = ()
        try:
            rs = ip.await_(aw, st, site)
        finally:
            ip.thread, ip.cancel = old
        out = []
        for ok, v, s in rs:
            s.locks = s.tmp[-1][1]
            s.tmp = s.tmp[:-1]
            s.rs.pop('waiting', None)
            if not ok and v[0] == 'XC' and v[4] == ('cancel', 'call'):
                s.rs['lost'] = TRUE
                self.count('cancelled calls')
                self.over(ip, s, site, 'cancelled')
                out.append((True, ('FUT', 'exc', v, site), s))
            else:
                self.over(ip, s, site, 'answered' if ok else 'failed')
                out.append((True, ('FUT', 'ok' if ok else 'exc', v, site), s))
        return out

    # ---- the world outside
    def ext_call(self, ip, name, args, kw, st, site):
        if not self.on:
            return MeshMon.ext_call(self, ip, name, args, kw, st, site)
        if 'C12' in self.r and ip.thread == 'loop':
            why = self.blocks(ip, name, args, kw, st, site)
            self.r['C12'].check(not why, 'nothing blocks the loop thread', site, '%s on the event loop thread' % why, st)
            self.awaited(name, args, st)
        if name == 'await:asyncio.open_connection':
            return self.dial(ip, args, st, site)
        if name in ('asyncio.StreamWriter.write', 'asyncio.StreamWriter.writelines'):
            d = args[1]
            o = st.obj(d) if d[0] == 'O' else None
            if o is not None and o.kind == 'ext':
                d = o.f.get('v', o.f.get('.v', d))
            elif name.endswith('writelines'):
                parts = o.m.get('items') if o is not None else (d[1] if d[0] == 'T' else None)
                d = cat(list(parts), 'bytes') if parts else d
            return [(True, NONE, st)] if self.wrote(ip, args[0], unwrap(d), st, site) is not False else []
        if name == 'await:asyncio.StreamWriter.drain':
            return self.drain(ip, args[0], st, site)
        if name in ('asyncio.StreamWriter.close', 'asyncio.StreamWriter.abort'):
            self.closed(ip, args[0], st, site)
            return [(True, NONE, st)]
        if name == 'asyncio.StreamWriter.is_closing':
            c = self.conn(st, args[0])
            return [(True, K(c is not None and not self.usable(c)), st)]
        if name == 'await:asyncio.StreamReader.readexactly':
            return self.read(ip, args[0], arg(args, kw, 1, 'n'), st, site)
        if name == 'await:asyncio.Event.wait':
            ev = st.obj(args[0])
            return [(True, TRUE, st)] if ev is not None and ev.f.get('%set') == TRUE else []
        if name == 'await:future' and args[0][0] == 'O' and ip.ext_type(args[0], st) == 'asyncio.Future':
            f = st.obj(args[0]).f
            if f.get('%set') != TRUE:
                return []
            if f.get('%exc') is not None:
                return [(False, f['%exc'], st)]
            return [(True, f.get('%result', NONE), st)]
        if name in ('asyncio.Future.done', 'asyncio.Event.is_set') and args[0][0] == 'O':
            return [(True, K(st.obj(args[0]).f.get('%set') == TRUE), st)]
        if name == 'FUT.result' or name == 'concurrent.futures.Future.result':
            return self.result(ip, args, kw, st, site)
        if name == 'FUT.cancel':
            f = args[0]
            if f[2][0] == 'S' and f[2][1] == 'task':
                self.cancelled(ip, f[2][2][0], st, site)
            else:
                st.rs['gave up'] = TRUE
            return [(True, TRUE, st)]
        if name == 'FUT.done':
            f = args[0]
            if f[2][0] == 'S' and f[2][1] == 'task':
                c = self.conn(st, f[2][2][0])
                return [(True, K(c is not None and c[3] == K('ended')), st)]
        return MeshMon.ext_call(self, ip, name, args, kw, st, site)

    def dial(self, ip, args, st, site):
        self.count('dials')
        good = [c for c in self.conns(st) if self.usable(c)]
        if st.rs.get('dialing') is not None:
            self.fail('C21', 'no address is dialed twice at a time', site, 'an address is dialed while another dial to it is in progress', st)
            return []
        if good:
            self.fail('C21', 'no address is dialed while a usable connection exists', site, 'an address is dialed although there is a usable connection to it', st)
            return []
        self.ok('C21', 'an address is dialed only when there is no dial in progress and no usable connection')
        outs = []
        s2 = st.clone()
        st.rs['dialing'] = T(args[0] if args else NONE)
        for s in self.meanwhile(ip, st, 'dial', site):
            s.rs.pop('dialing', None)
            n = K(len(self.conns(s)))
            r = ip.alloc(s, 'reader@' + site, HObj('ext', X('asyncio.StreamReader'), {'%n': n}))
            w = ip.alloc(s, 'writer@' + site, HObj('ext', X('asyncio.StreamWriter'), {'%n': n}))
            s.rs['cx'] = T(*([T(*c) for c in self.conns(s)] + [T(w, r, NONE, K('open'))]))
            outs.append((True, T(r, w), s))
        if self.env.get('dial_fails', True) and s2.rs.get('dial failures', ZERO)[2] < 2:
            s2.rs['dial failures'] = K(s2.rs.get('dial failures', ZERO)[2] + 1)
            s2.note('%s the dial fails' % site)
            outs.append((False, ip.any_exc('builtins.OSError', ('dial',)), s2))
        return outs

    def drain(self, ip, w, st, site):
        c = self.conn(st, w)
        if c is None or self.env.get('sends_fail') is False:
            return [(True, NONE, st)] if c is None or self.usable(c) else [(False, ip.any_exc('builtins.ConnectionError', ('drain',)), st)]
        if self.env.get('sends_fail') == 'always' and self.get(st, 'on') != w:
            return [(True, NONE, st)]
        s2 = st.clone()
        s2.note('%s the send fails' % site)
        self.set(s2, 'failed on', T(*((self.get(s2, 'failed on') or T())[1] + (w,))))
        bad = (False, ip.any_exc('builtins.ConnectionError', ('drain',)), s2)
        return [(True, NONE, st), bad] if self.usable(c) and self.env.get('sends_fail') != 'always' else [bad]

    def wrote(self, ip, w, data, st, site):
        self.count('writes')
        f = Reply(ip, data, st, REQF)
        if not f.ok or not f.whole:
            self.fail('C11', 'every frame is handed over whole by one write', site, 'writes %s, which is not one whole frame' % show(data)[:200], st)
            return
        self.ok('C11', 'every write of the asyncio client is one whole frame')
        rid = unwrap(f.f['request_id'])
        if self.get(st, 'rid') is None:
            self.set(st, 'rid', rid)
        n = self.get(st, 'sends') or ZERO
        self.set(st, 'sends', K(n[2] + 1))
        if n[2] >= (20 if self.env.get('sends_fail') == 'always' else 4):
            if self.env.get('sends_fail') == 'always':
                self.fail('C21', 'sends are retried a bounded number of times', site, 'a request is sent more than twenty times', st)
            return False
        got = self.get(st, 'got')
        if got is not None:
            # sent again although it was answered: the earlier answer may be the one that is used
            self.set(st, 'had', T(*((self.get(st, 'had') or T())[1] + (got,))))
            st.rs.pop('got:' + self.who)
        self.set(st, 'on', w)
        p = unwrap(f.f['ptype'])
        if self.how == 'oneway' and self.who == 'A':
            self.check('C22', p == K(2), 'one-way calls are sent as one-way', site, 'a one-way call is sent with frame type %s' % show(p), st)
        if self.how == 'sync' and self.who == 'A':
            t = unwrap(f.f['timeout'])
            self.check('C24', same(ip, t, TMO, st) or t == K(-1) and ip.know_pos({TMO: Fraction(1)}, st) is False,
                       'the frame announces the timeout in milliseconds', site, 'the frame announces %s for a timeout of timeout_ms milliseconds' % show(t), st)

    def closed(self, ip, w, st, site):
        c = self.conn(st, w)
        if c is not None and self.usable(c):
            if st.rs.get('pw') != w:
                self.harm(ip, w, st, site, 'closes')
            self.mark(st, w, 'lost')

    def cancelled(self, ip, w, st, site):
        c = self.conn(st, w)
        if c is not None and self.usable(c):
            self.harm(ip, w, st, site, 'stops reading')
            self.mark(st, w, 'lost')

    def harm(self, ip, w, st, site, what):
        bad = self.get(st, 'failed on')
        if bad is None or w not in bad[1]:
            self.fail('C21', 'a failure discards only the connection it happened on', site, 'the call %s a connection it had no failure on' % what, st)
        else:
            self.ok('C21', 'a send failure discards only the connection it happened on')

    def result(self, ip, args, kw, st, site):
        """waiting for the future of a call"""
        f = args[0]
        t = arg(args, kw, 1, 'timeout')
        if t is None:
            t = NONE
        done = ip.thread == 'loop'      # only from a callback of the future
        self.count('waits')
        if not done and self.who == 'A':
            if self.how == 'oneway':
                self.fail('C22', 'one-way calls do not wait', site, 'a one-way call waits for the loop', st)
            if self.how == 'sync':
                l = lin_of(t)
                good = t != NONE and l is not None and ip.know_pos(lin_add(l, {TMO: Fraction(1, 1000)}, -1), st) is False
                self.check('C24', good, 'the caller waits at most its timeout', site, 'the caller waits for %s' % ('ever' if t == NONE else show(t)), st)
        if f[0] != 'FUT':
            return None
        if f[1] == 'exc' and f[2][0] == 'XC' and f[2][4] == ('cancel', 'call'):
            st.rs.pop('gave up', None)
            if done or t == NONE:
                return [ip.raise_('concurrent.futures.CancelledError', st, site)]
            return [ip.raise_('builtins.TimeoutError', st, site, ('result', site))]
        return [(f[1] == 'ok', f[2], st)]

    # ---- the reader of a connection
    def read(self, ip, reader, n, st, site):
        plan = st.rs.get('plan')
        if plan is None:
            return None
        frm = st.rs.get('frm')
        if frm is not None:
            kind, who, base, data, pos, total = frm[1]
            if pos == K(20) or not same(ip, pos, total, st) and ip.know_pos(lin_add(lin_of(total), lin_of(pos), -1), st) is True:
                return self.piece(ip, frm, n, st, site)
            if not same(ip, pos, total, st):
                self.fail('C16', 'responses are read in step', site, 'reads %s bytes of a response of %s bytes' % (show(pos), show(total)), st)
                return []
            st.rs.pop('frm')
        if not plan[1]:
            self.paused.append(st)
            return []
        kind, who = plan[1][0][1]
        st.rs['plan'] = T(*plan[1][1:])
        kind, who = kind[2], who[2]
        self.count('reads')
        if kind in LOSS:
            st.note('%s the connection is lost (%s)' % (site, kind))
            return [(False, ip.exc(LOSS[kind], site, ('loss',)), st)]
        if kind == 'cut':
            kind, then = 'any', T(T(K('eof'), K(who)))
            st.rs['plan'] = then
            cut = True
        else:
            cut = False
        i = st.rs.get('frames', ZERO)[2]
        st.rs['frames'] = K(i + 1)
        base = S('resp', (K(i),), 'bytes')
        a = Answer(base)
        rid = self.get(st, 'rid', who)
        data, total = NONE, lin_val(a.total)
        st.note('%s a frame arrives (%s for %s)' % (site, kind, who))
        if kind.startswith('good'):
            body = S('sym', (K('answer%d' % i),), 'bytes')
            n0 = S('len', (body,), 'int')
            ip.register(n0)
            cls = RESPONSE_CLASS
            beat = kind.startswith('goodbeat')
            data = cat([K(b'\x01\x00' + (b'\x00\x00' if beat else b'\x00\x02') + b'\x01'), fld(rid, 4), fld(K(1), 1), fld(K(int(kind.split(':')[1])), 2),
                        fld(K(len(cls)), 2, False), fld(ZERO, 2, False), fld(n0, 4, False), K(cls), body], 'bytes')
            total = lin_val({None: Fraction(20 + len(cls)), n0: Fraction(1)})
        else:
            k = ip.eq_key(a.rid, rid)
            if isinstance(k, tuple):
                ip.set_fact(k[0], k[1] if kind == 'any' else not k[1], st)
        st.rs['frm'] = T(K(kind), K(who), base, data, ZERO, total)
        if cut:
            st.rs['cut'] = TRUE
        return self.piece(ip, st.rs['frm'], n, st, site)

    def piece(self, ip, frm, n, st, site):
        kind, who, base, data, pos, total = frm[1]
        if lin_of(n) is None:
            raise Broken('the reader asks for %s bytes' % show(n))
        if pos != ZERO and st.rs.pop('cut', None) is not None:
            st.rs['plan'] = T()
            st.note('%s the connection is lost in the middle of a frame' % site)
            return [(False, ip.exc('asyncio.IncompleteReadError', site, ('loss',)), st)]
        end = lin_val(lin_add(lin_of(pos), lin_of(n)))
        st.rs['frm'] = T(kind, who, base, data, end, total)
        if same(ip, end, total, st):
            if kind != K('other') and self.get(st, 'got', who[2]) is None:
                st.rs['got:%s' % who[2]] = T(kind, base)
        if data == NONE:
            return [(True, S('sl', (base, pos, n), 'bytes'), st)]
        out = []
        for ok, v, s in mb.slice_text(ip, data, pos, end, NONE, st, site):
            out.append((ok, v, s))
        return out

    def nested(self, ip, st, thread, ctx, run):
        """run something else while this coroutine is suspended -> (results, paused), with this coroutine's stack restored"""
        depth, locks = len(st.stack), st.locks
        st.tmp += (T(*locks),)
        ntmp = len(st.tmp)
        st.locks = ()
        saved = (ip.thread, ip.cancel, ip.calls, self.paused)
        ip.thread, ip.cancel, ip.calls, self.paused = thread, [], [], []
        old = ip.push_ctx(ctx)
        try:
            rs = run(st)
            paused = self.paused
        finally:
            ip.pop_ctx(old)
            ip.thread, ip.cancel, ip.calls, self.paused = saved
        seen, ps = set(), []
        for s in paused:
            s.stack, s.tmp = s.stack[:depth], s.tmp[:ntmp]
            if s.key() not in seen:
                seen.add(s.key())
                ps.append(s)
        for s in [x[2] for x in rs] + ps:
            s.locks = s.tmp[ntmp - 1][1]
            s.tmp = s.tmp[:ntmp - 1]
        return rs, ps

    def pump(self, ip, st, w, plan):
        """the frames of the plan arrive on connection w -> states in which the reader waits again, or has ended"""
        c = self.conn(st, w)
        if c is None or c[2] == NONE or c[3] == K('ended'):
            return []
        s = st.clone()
        s.rs['plan'] = T(*[T(K(k), K(who)) for k, who in plan])
        s.rs['pw'] = w
        i = s.rs.get('frames', ZERO)[2]
        rs, ps = self.nested(ip, s, 'loop', 'reader%d' % i, lambda x: ip.run_coro(c[2], x, 'reader'))
        out = []
        for ok, v, s in rs:
            self.mark(s, w, 'ended')
            s.note('the reader of the connection has ended')
            out.append(s)
        out.extend(ps)
        seen, res = set(), []
        for s in out:
            for k in ('plan', 'pw', 'frm', 'cut'):
                s.rs.pop(k, None)
            ip.gc(s, ())
            if s.key() not in seen:
                seen.add(s.key())
                res.append(s)
        return res

    def another(self, ip, st, site):
        """another call runs to its end"""
        n = st.rs.get('nested', ZERO)[2]
        if n >= self.env.get('others', 0) or self.who != 'A':
            return []
        who = 'BC'[n]
        s = st.clone()
        s.rs['nested'] = K(n + 1)
        held = s.rs.get('held')
        s.rs['held'] = T(*((held[1] if held is not None else ()) + s.locks))
        was = self.who
        self.who = who
        try:
            f = self.sc.module()['other']
            rs, ps = self.nested(ip, s, 'caller', 'call ' + who,
                                 lambda x: ip.call_fn(f, [], [('c', x.rs['cl']), ('ctx', x.rs['ctx'])], x, 'other'))
            for ok, v, x in rs:
                self.finish(ip, ok, v, x)
        finally:
            self.who = was
        out = []
        for ok, v, x in rs:
            if held is not None:
                x.rs['held'] = held
            else:
                x.rs.pop('held', None)
            for k in [k for k in x.rs if k.endswith(':' + who)]:
                if k[:3] not in ('rid',):
                    x.rs.pop(k)
            x.note('the other call is over')
            out.append(x)
        return out

    def meanwhile(self, ip, st, point, site):
        """what may happen while the call is suspended at a point other than its wait"""
        out = [st]
        if point in self.env.get('at', ()):
            out.extend(self.another(ip, st, site))
        return out

    def suspend(self, ip, st, name, args, site):
        if not self.on:
            return [st]
        if 'plan' in st.rs:
            if name != 'asyncio.StreamReader.readexactly' and st.rs.get('mid') is None:
                # the calls may go on while the reader is suspended here
                s = st.clone()
                s.rs['mid'] = TRUE
                s.note('%s the reader is suspended' % site)
                self.paused.append(s)
            return [st]
        if name == 'asyncio.Lock.acquire':
            held = st.rs.get('held')
            if held is not None and args[0] in held[1]:
                return []       # waits until the other call is over
            return self.meanwhile(ip, st, 'lock', site)
        if name == 'asyncio.StreamWriter.drain':
            out = self.meanwhile(ip, st, 'drain', site)
            w = self.get(st, 'on')
            if w is not None and w == args[0]:
                for plan in self.env.get('early', ()):
                    if self.get(st, 'got') is None:
                        for s in self.pump(ip, st, w, self.plan(plan)):
                            s.rs.pop('mid', None)
                            out.append(s)
            return out
        if name == 'asyncio.Event.wait' or name == 'future' and args[0][0] == 'O':
            return self.wait(ip, st, args[0], site)
        return [st]

    def plan(self, text):
        out = []
        for x in text.split():
            k, _, who = x.partition('@')
            out.append((k, who or self.who))
        return out

    def is_set(self, st, ev):
        o = st.obj(ev)
        return o is not None and o.f.get('%set') == TRUE

    def wait(self, ip, st, ev, site, fresh=True):
        """the call waits for its response"""
        self.count('waits for a response')
        if self.how == 'oneway' and self.who == 'A':
            self.fail('C22', 'one-way calls do not wait', site, 'a one-way call waits for a response', st)
        if self.is_set(st, ev):
            return [st]
        w = self.get(st, 'on')
        c = self.conn(st, w) if w is not None else None
        if c is None or c[2] == NONE or c[3] == K('ended'):
            self.fail('C17', 'no call waits for a response that cannot come', site, 'a call waits although nothing reads its connection any more', st)
            return []
        if self.get(st, 'got') is not None:
            self.fail('C17', 'every response wakes its call', site, 'a call waits although its response has arrived', st)
            self.fail('C16', 'a quick response is not lost', site, 'a call waits although its response has arrived', st)
            return []
        out = []
        if ip.cancel:
            s = st.clone()
            s.note('%s the call is cancelled while it waits' % site)
            out.append(s)
        if c[3] == K('lost'):
            plans = ('reset',)
        else:
            plans = self.env.get('plans', ('good:0',))
            if self.who != 'A':
                plans = self.env.get('plans2', ('good:0', 'reset'))
        for plan in plans:
            p = self.plan(plan)
            if any(who != self.who and (self.get(st, 'rid', who) is None or self.get(st, 'got', who) is not None or self.get(st, 'on', who) != w)
                   for k, who in p):
                continue
            for s in self.pump(ip, st, w, p):
                self.count('times the reader ran')
                end = self.conn(s, w)[3] == K('ended')
                mid = s.rs.pop('mid', None) is not None
                if mid and not self.is_set(s, ev):
                    continue
                if not self.is_set(s, ev):
                    if end:
                        self.fail('C17', 'a lost connection wakes its calls', site, 'the connection of a waiting call is lost and nothing wakes the call', s)
                    elif self.get(s, 'got') is not None:
                        self.fail('C17', 'every response wakes its call', site, 'the response of a waiting call arrives and does not wake it', s)
                    elif len(p) > 1 or p[0][0] == 'other' or p[0][1] != self.who:
                        continue
                    else:
                        self.fail('C17', 'every response wakes its call', site, 'a waiting call is not woken (%s)' % plan, s)
                    continue
                if self.get(s, 'got') is None and not end:
                    self.fail('C16', 'calls are woken by their own response only', site, 'a call is woken by a frame that is not its response', s)
                self.ok('C17', 'a response, or the loss of the connection, wakes the call')
                out.append(s)
        if 'wait' in self.env.get('at', ()) and fresh:
            for s in self.another(ip, st, site):
                out.extend(self.wait(ip, s, ev, site, False))
        return out

    # ---- the end of a call on the loop
    def tables(self, st):
        """containers the client holds on to"""
        seen, work = set(), [st.rs['cl']]
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == 'T':
                work.extend(v[1])
                continue
            o = st.obj(v) if v[0] == 'O' else None
            if o is None or o.kind in ('class', 'module', 'frame'):
                continue
            work.extend(x for x in o.f.values() if isinstance(x, tuple) and x and x[0] in 'OT')
            for k in ('items', 'gen'):
                for e in o.m.get(k) or ():
                    for x in (e if isinstance(e[0], tuple) else (e,)):
                        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in 'OT':
                            work.append(x)
            if o.kind in ('dict', 'list', 'set') or o.m.get('items'):
                yield v, o

    def left(self, ip, st, who):
        rid = self.get(st, 'rid', who)
        if rid is None:
            return None
        for v, o in self.tables(st):
            for k in ('items', 'gen'):
                for e in o.m.get(k) or ():
                    x = e[0] if isinstance(e[0], tuple) else e
                    for y in (x[1] if x[0] == 'T' else (x,)):
                        if y == rid or y[0] in 'SE' and same(ip, y, rid, st):
                            return v
        return None

    def over(self, ip, st, site, how):
        self.count('calls over')
        if 'C19' not in self.r:
            return
        v = self.left(ip, st, self.who)
        self.check('C19', v is None, 'a finished call leaves no entry', site, 'a call that was %s leaves an entry in a table of the client' % how, st)
        if v is not None or self.who != 'A' or self.get(st, 'got') is not None:
            return
        w = self.get(st, 'on')
        c = self.conn(st, w) if w is not None else None
        if c is not None and self.usable(c) and self.get(st, 'rid') is not None:
            for plan in self.env.get('late', ()):
                for s in self.pump(ip, st, w, self.plan(plan)):
                    if s.rs.pop('mid', None) is not None:
                        continue
                    self.count('late responses')
                    self.check('C19', self.left(ip, s, self.who) is None, 'a late response is dropped', site,
                               'the response to a call that is over leaves an entry in a table of the client', s)

    # ---- the end of a call
    def finish(self, ip, ok, v, st):
        where = FILE if ok else exc_site(v, st)
        how = self.how if self.who == 'A' else 'sync'
        got = self.get(st, 'got')
        if ok and how == 'sync':
            self.count('results')
            if got is None and self.get(st, 'had') is None:
                self.fail('C16', 'content comes from the response to this call', FILE, 'a call returns %s without its response' % show(v), st)
                self.fail('C18', 'content comes from a SUCCESS response', FILE, 'a call returns %s without a response' % show(v), st)
                return
            had = self.get(st, 'had')
            for g in (got,) + (had[1] if had is not None else ()):
                if g is None:
                    continue
                kind, base = g[1][0][2], g[1][1]
                a = Answer(base)
                want = S('sym', (K('answer%d' % base[2][0][2]),), 'bytes') if kind.startswith('good') else a.content
                if same(ip, v, want, st):
                    break
            self.check('C16', same(ip, v, want, st), 'the content is that of the response to this call', FILE, 'a call returns %s instead of the content of its response' % show(v), st)
            self.check('C18', kind == 'good:0' or not kind.startswith('good') and same(ip, a.status, ZERO, st), 'content comes from a SUCCESS response', FILE,
                       'content is returned from a response that may not be a SUCCESS', st)
        if ok and how == 'oneway':
            self.check('C22', v == NONE, 'one-way calls return no content', FILE, 'a one-way call returns %s' % show(v), st)
        if not ok and how == 'sync':
            c = ip.exc_class(v, st) if v[0] != 'ABORT' else None
            good = c is not None and any(ip.is_sub(c, b, st) for b in [X(n) for n in NAMING] + [e for k, e in self.lib.items() if k.endswith('Error')])
            self.check('C18', good, 'failures are errors that name the failure', where, 'the call raises %s' % exc_name(ip, v, st), st)
            if got is not None and got[1][0][2].startswith('good') and self.get(st, 'failed on') is None:
                if got[1][0] == K('good:0'):
                    if st.rs.get('lost') is None:
                        self.fail('C16', 'a quick response is not lost', where, 'the call raises %s although its response arrived' % exc_name(ip, v, st), st)
                        self.fail('C18', 'a SUCCESS response ends the call with its content', where, 'the call raises %s although a SUCCESS response arrived' % exc_name(ip, v, st), st)
                elif c is not None and st.rs.get('lost') is None:
                    self.check('C18', ip.is_sub(c, self.lib['ServerError'], st), 'failure responses raise ServerError', where,
                               'a failure response raises %s' % exc_name(ip, v, st), st)
        if ok and how == 'beat':
            for yes, s in ip.test(v, st.clone()):
                if yes:
                    self.count('good heartbeats')
                    kind = got[1][0][2] if got is not None else None
                    self.check('C23', kind == 'goodbeat:0' or kind == 'any' and same(ip, Answer(got[1][1]).status, ZERO, s),
                               'a heartbeat is good only if a SUCCESS acknowledgement of its own arrived', FILE,
                               'a heartbeat is reported good after %s' % (kind or 'no acknowledgement of its own'), s)
                else:
                    self.ok('C23', 'a heartbeat without a SUCCESS acknowledgement of its own is reported bad')
        if how == 'sync' and self.who == 'A' and st.rs.get('lost') is not None:
            self.check('C19', st.rs.get('gave up') is not None, 'a call that timed out is cancelled', where,
                       'the caller gives up and leaves its call pending on the loop', st)


def started(mon):
    sc = Scenario('aclient', SETUP, mon, thread='caller')
    mon.sc = sc
    ns = sc.module()
    mon.lib = {k: ns[k] for k in ('PyboltError', 'ClientError', 'ServerError', 'DecodeError')}
    cs = [(v, s) for o, v, s in sc.run('build') if o]
    if not cs:
        raise Broken('no path builds a client')
    c, st = cs[0]
    st.rs['c'] = c
    xs = [(v, s) for o, v, s in sc.run('ctx', st=st) if o]
    if not xs:
        raise Broken('no path builds a span context')
    ctx, st = xs[0]
    st.rs = {'cl': c, 'ctx': ctx}
    mon.lib['BoltRequest'] = ns['BoltRequest']
    return sc, c, ctx, st


def call(rules, how, params=None, **env):
    mon = CallMon(rules, **env)
    mon.how = how
    sc, c, ctx, st = started(mon)
    mon.precise = {v[1] for v, o in mon.tables(st)}
    mon.on = True
    kw = dict(c=c, ctx=ctx) if how != 'beat' else dict(c=c)
    if how in ('sync', 'oneway', 'asyn', 'asyncb'):
        kw['content'] = CONTENT
    if how in ('sync', 'asyncb'):
        kw['timeout'] = TMO
    if how == 'asyncb':
        kw['cb'] = sym('callback')
    kw.update(params or {})
    outs = sc.run(how, st=st, **kw)
    if how == 'beat':
        outs = [(f[1] == 'ok', f[2], s2) for ok, co, s in outs for _, f, s2 in mon.on_loop(sc.ip, co, s, how)]
    for ok, v, s in outs:
        mon.finish(sc.ip, ok, v, s)
    return sc, mon, outs


# ---------------------------------------------------------------- the heartbeat timer

class TimerMon(CallMon):
    """the coroutine that sends heartbeats: what it does between two sleeps, over and over"""
    timing = False
    inner = 0

    def __init__(self, rules, **env):
        CallMon.__init__(self, rules, **env)
        self.how = 'beat'
        self.pauses = {}
        self.past = set()

    def spawn(self, ip, aw, st, how, site):
        if self.timing and aw[0] in ('CO', 'AW') and how in ('task', 'threadsafe'):
            r = CallMon.spawn(self, ip, aw, st, how, site) if how == 'task' else None
            if r is None:
                # a heartbeat in a task of its own cannot end the timer
                self.inner += 1
                try:
                    r = [(True, ('FUT', 'ok' if ok else 'exc', v, site), s) for ok, v, s in ip.await_(aw, st, site)]
                finally:
                    self.inner -= 1
            return r
        return CallMon.spawn(self, ip, aw, st, how, site)

    def bounded(self, ip, st, site, what):
        if self.timing and not self.inner and not ip.cancel:
            self.fail('C23', 'a missing acknowledgement does not end the heartbeats', site,
                      'the heartbeat timer waits for %s without a limit' % what, st)

    def ext_call(self, ip, name, args, kw, st, site):
        if self.timing and name == 'asyncio.wait_for!':
            n = const(args[1])
            self.check('C23', args[1] != NONE and n[0] and isinstance(n[1], (int, float)) and 0 < n[1] <= 60, 'the wait for an acknowledgement is bounded', site,
                       'waits %s seconds for the acknowledgement of a heartbeat' % show(args[1]), st)
        return CallMon.ext_call(self, ip, name, args, kw, st, site)

    def wrote(self, ip, w, data, st, site):
        if self.timing:
            f = Reply(ip, data, st, REQF)
            if f.ok and unwrap(f.f['cmdcode']) == ZERO:
                self.count('heartbeats sent')
                rid = unwrap(f.f['request_id'])
                old = self.get(st, 'rid')
                if old is not None and not same(ip, old, rid, st):
                    self.fail('C23', 'heartbeats are an interval apart', site, 'another heartbeat is sent without an interval between', st)
                    return False
                self.set(st, 'rid', rid)
                st.rs['beaten'] = TRUE
        return CallMon.wrote(self, ip, w, data, st, site)

    def dial(self, ip, args, st, site):
        if self.timing:
            self.bounded(ip, st, site, 'a connection')
            st.rs['beaten'] = TRUE
            n = st.rs.get('dialled', ZERO)[2]
            if n >= 6:
                self.fail('C23', 'heartbeats are an interval apart', site, 'the mesh is dialled again and again without an interval between', st)
                return []
            st.rs['dialled'] = K(n + 1)
        return CallMon.dial(self, ip, args, st, site)

    def wait(self, ip, st, ev, site, fresh=True):
        if self.timing:
            self.bounded(ip, st, site, 'an acknowledgement')
        return CallMon.wait(self, ip, st, ev, site, fresh)

    def suspend(self, ip, st, name, args, site):
        if not self.timing or 'plan' in st.rs or name != 'asyncio.sleep':
            if self.timing and name in ('asyncio.StreamWriter.drain', 'asyncio.Lock.acquire'):
                # a heartbeat that is held up here is one
                st.rs['beaten'] = TRUE
            return CallMon.suspend(self, ip, st, name, args, site)
        n = const(args[0]) if args else (False, None)
        good = n[0] and isinstance(n[1], (int, float)) and 0 < n[1] <= 60
        self.check('C23', good, 'the interval between heartbeats is a constant', site, 'sleeps %s between heartbeats' % (show(args[0]) if args else ''), st)
        if not good:
            return []
        self.pauses.setdefault(site, set()).add(n[1])
        if st.rs.get('slept') is not None:
            self.check('C23', st.rs.get('beaten') is not None, 'a heartbeat is sent every interval', site, 'an interval passes without a heartbeat', st)
            self.count('rounds')
        return self.fresh(ip, st, site)

    def fresh(self, ip, st, site):
        """the interval passes: what only concerned the last heartbeat is forgotten; the connection may be lost"""
        self.name(ip, st)
        outs = [st]
        for c in self.conns(st):
            if c[2] != NONE and c[3] == K('lost'):
                outs = [x for s in outs for x in self.pump(ip, s, c[0], self.plan('reset')) if 'mid' not in x.rs]
        for c in self.conns(st):
            if c[2] != NONE and c[3] == K('open'):
                outs.extend([x for s in list(outs) for x in self.pump(ip, s, c[0], self.plan('reset')) if 'mid' not in x.rs])
        res = []
        for s in outs:
            s.rs['cx'] = T(*[T(*c) for c in self.conns(s) if c[3] == K('open')])
            for k in list(s.rs):
                if k.endswith(':A') or k in ('frames', 'dial failures', 'dialled', 'beaten', 'lost', 'waiting', 'nested'):
                    s.rs.pop(k)
            s.rs['slept'] = TRUE
            self.name(ip, s)
            for k in [k for k in s.facts if any(x and x[0] == 'S' and len(x) == 5 and (x[1] == 'resp' or x[1] == 'sym' and str(x[2][0][2]).startswith('answer')) for x in walk(k))]:
                del s.facts[k]
            s.trail = s.trail[-12:]
            ip.gc(s, ())
            # what was seen here before goes on as it did before
            if (site, s.key()) not in self.past:
                self.past.add((site, s.key()))
                res.append(s)
        return res

    def name(self, ip, s):
        """connections are told apart by their order only"""
        names = {}
        for i, c in enumerate(self.conns(s)):
            for j, w in enumerate(('writer', 'reader')):
                names[c[j]] = ('O', (w, 'conn', i))
                s.put(c[j], HObj('ext', s.obj(c[j]).cls, {'%n': K(i)}))
        i = 0
        for oid in sorted(s.heap, key=repr):
            if s.heap[oid].cls == X('asyncio.Lock') and s.heap[oid].kind == 'ext':
                names[('O', oid)] = ('O', ('lock', 'conn', i))
                i += 1
        ip.substitute(s, lambda v: names.get(v) if v[0] == 'O' else None)


def timer(rules, **env):
    mon = TimerMon(rules, **env)
    sc, c, ctx, st = started(mon)
    ip = sc.ip
    beats = [b for b in mon.beats]
    if not beats:
        mon.fail('C23', 'heartbeats are scheduled', FILE, 'no heartbeat is scheduled when the client starts with a mesh', st)
        return sc, mon, []
    mon.precise = {v[1] for v, o in mon.tables(st)}
    mon.on = mon.timing = True
    aw = beats[0][0]
    old = ip.thread
    ip.thread = 'loop'
    try:
        outs = ip.await_(aw, st, 'timer')
    finally:
        ip.thread = old
    mon.ok('C23', 'the heartbeat timer never ends')
    for ok, v, s in outs:
        where = FILE if ok else exc_site(v, s)
        mon.fail('C23', 'the heartbeat timer never ends', where, 'the heartbeat timer ends%s' % ('' if ok else ' with %s' % exc_name(ip, v, s)), s)
    for site, ns in sorted(mon.pauses.items()):
        mon.check('C23', len(ns) == 1, 'the interval between heartbeats is a constant', site, 'sleeps %s seconds between heartbeats' % ', '.join(map(str, sorted(ns))), st)
    return sc, mon, outs


# ---------------------------------------------------------------- what belongs to the loop thread

class TouchMon(Touches, CallMon):
    def dict_event(self, ip, op, ref, key, val, st, site):
        self.touch(ip, ref, op, st, site)
        return CallMon.dict_event(self, ip, op, ref, key, val, st, site)

    def ext_call(self, ip, name, args, kw, st, site):
        self.used(ip, name, args, st, site)
        return CallMon.ext_call(self, ip, name, args, kw, st, site)

    def spawn(self, ip, aw, st, how, site):
        if self.watch and ip.thread != 'loop' and how in ('task', 'soon', 'later'):
            self.fail('C20', 'work is scheduled on the loop thread-safely', site, 'work is scheduled on the loop from another thread without waking it safely', st)
        elif self.watch and how == 'threadsafe':
            self.count('scheduled')
            self.ok('C20', 'work is scheduled on the loop thread-safely')
        return CallMon.spawn(self, ip, aw, st, how, site)


def touches(r, runs):
    """the public methods of the asyncio client on a caller thread, and what they make the loop do"""
    seen = {}
    for how, env in runs:
        mon = TouchMon({'C20': r}, **env)
        mon.how = how
        sc, c, ctx, st = started(mon)
        mon.precise = {v[1] for v, o in mon.tables(st)}
        mon.on = True
        mon.begin(sc, st)
        kw = dict(c=c, ctx=ctx)
        if how in ('sub', 'unsub'):
            kw.pop('ctx')
        else:
            kw['content'] = CONTENT
        if how in ('sync', 'asyncb'):
            kw['timeout'] = TMO
        if how == 'asyncb':
            kw['cb'] = sym('callback')
        outs = sc.run(how, st=st, **kw)
        for oid, d in mon.touched.items():
            for k, x in d.items():
                seen.setdefault(oid, {}).setdefault(k, x)
        if how not in ('sub', 'unsub') and not mon.counts.get('scheduled') and not r.findings:
            raise Broken('the asyncio client: %s schedules nothing' % how)
        r.ran(sc, 'asyncio client, %s' % how, len(outs), **mon.counts)
    mon.settle(r, seen)
    if not mon.counts.get('containers of the loop') and not r.findings:
        raise Broken('the asyncio client: no tables are changed on the loop')
