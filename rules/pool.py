"""C25-C29: the connection pool, the recently-used container, the pool manager."""
from .base import *
from pysa.m_lib import arg, ext_obj
from pysa.m_methods import fld as field_of

SETUP = '''
from mysockpool import ConnectionPool, PoolManager, SocketConnection
from mysockpool.recently_used_container import RecentlyUsedContainer
from mysockpool.exceptions import ClosedPoolError, EmptyPoolError
def key(host, port): return ConnectionPool.ConnectionCls.PoolKeyCls(host, port)
def cls(): return ConnectionPool.ConnectionCls
def conn(k): return ConnectionPool.ConnectionCls(k)
def make(k, initial, most, maxfree, minfree, block):
    return ConnectionPool(k, initial_connections=initial, max_connections=most, max_free_connections=maxfree,
                          min_free_connections=minfree, block=block)
def get(pool, timeout): return pool.get_conn(timeout=timeout)
def put(pool, c): pool.put_conn(c)
def discard(pool, c): pool.discard_conn(c)
def close(pool): pool.close()
def leave(pool):
    with pool:
        pass
'''
CAP = sym('most', 'int')
FILE = 'mysockpool/connection_pool.py'
QUEUES = ('queue.Queue', 'queue.LifoQueue', 'queue.SimpleQueue', 'queue.PriorityQueue')
READ = 1


class Conns(Monitor):
    """typestate of connections: built, taken from a queue, pooled, closed, checked"""

    def __init__(self, rules):
        self.r = rules
        self.conncls = None
        self.proto = None
        self.pool = None
        self.counters = set()
        self.lockset = None
        self.preheap = ()
        self.counts = {}
        self.drops = 0

    def fail(self, pid, rule, where, msg, st):
        if pid in self.r:
            self.r[pid].fail(rule, where, msg, st)

    def ok(self, pid, text):
        if pid in self.r:
            self.r[pid].ok(text)

    def count(self, w):
        self.counts[w] = self.counts.get(w, 0) + 1

    # ---- tracked connections: T(ref, origin, state, pooled, closed, check)
    def conns(self, st):
        v = st.rs.get('conns')
        return list(v[1]) if v is not None else []

    def setc(self, st, cs):
        st.rs['conns'] = T(*cs)

    def track(self, st, ref, origin, state='live'):
        self.setc(st, self.conns(st) + [T(ref, K(origin), K(state), K(0), K(0), K('unchecked'))])

    def upd(self, st, ref, **kw):
        cs = self.conns(st)
        for i, c in enumerate(cs):
            if c[1][0] == ref:
                f = list(c[1])
                for k, v in kw.items():
                    j = {'state': 2, 'pooled': 3, 'closed': 4, 'check': 5}[k]
                    f[j] = K(v)
                cs[i] = T(*f)
        self.setc(st, cs)

    def find(self, st, ref):
        for c in self.conns(st):
            if c[1][0] == ref:
                return c[1]
        return None

    def of_socket(self, st, v):
        for c in self.conns(st):
            if c[1][0] == v:
                return c[1]
            o = st.obj(c[1][0])
            if o is not None and v in o.f.values():
                return c[1]
        return None

    def slack(self, st, d=0):
        n = st.rs.get('slack', ZERO)[2] + d
        st.rs['slack'] = K(max(-3, min(3, n)))
        return n

    # ---- events
    def is_conn(self, ip, cls, st):
        return self.conncls is not None and cls[0] == 'O' and ip.is_sub(cls, self.conncls, st)

    def alloc(self, ip, cls, ref, st, site):
        if self.is_conn(ip, cls, st):
            self.count('connections built')
            n = self.slack(st, -1)
            if n < 0:
                self.fail('C25', 'a connection is counted before it is created', site, 'a connection is created that was not counted', st)
            else:
                self.ok('C25', 'a connection is created only after it was counted')
            self.track(st, ref, 'new', 'building')

    def built(self, ip, cls, ref, ok, st, site):
        if self.is_conn(ip, cls, st) and self.find(st, ref) is not None:
            if ok:
                self.upd(st, ref, state='live')
            else:
                self.slack(st, 1)
                self.setc(st, [c for c in self.conns(st) if c[1][0] != ref])
        elif ref == self.pool or self.pool is None:
            pass

    def held(self, st):
        return {l for l in st.locks if l[0] == 'O'}

    def store_attr(self, ip, ref, name, val, st):
        if self.pool is None or ref != self.pool or name not in self.counters:
            return
        site = self.site(ip, st)
        old = st.obj(ref).f.get(name)
        a, b = lin_of(unwrap(old)) if old is not None else None, lin_of(unwrap(val))
        d = lin_const(lin_add(b, a, -1)) if a is not None and b is not None else None
        if d is None or d != int(d):
            self.fail('C25', 'the count moves in atomic steps', site, 'the count is set to %s while it is %s' % (show(val), show(old) if old else None), st)
            return
        d = int(d)
        held = {l for l in self.held(st) if l[1] in self.preheap}
        self.count('count updates')
        if not held:
            self.fail('C25', 'the count moves in atomic steps', site, 'the count is updated without holding a lock of the pool', st)
        else:
            self.lockset = held if self.lockset is None else self.lockset & held
            if not self.lockset:
                self.fail('C25', 'the count moves in atomic steps', site, 'the count is updated under different locks', st)
            else:
                self.ok('C25', 'the count is updated while holding the lock of the pool')
        if d > 0:
            room = lin_add(lin_of(CAP), b, -1)
            if ip.know_pos(lin_add(room, {None: Fraction(1)}), st) is True:
                self.ok('C25', 'the count is raised only when it was below the maximum in the same critical section')
            else:
                self.fail('C25', 'the cap check and the update are one atomic step', site,
                          'the count is raised to %s, which was not compared with the maximum in the same critical section' % show(val), st)
        n = self.slack(st, d)
        if n < 0:
            self.fail('C25', 'a connection is counted as long as it lives', site, 'a connection stops being counted before it is closed', st)

    def site(self, ip, st):
        return ip.calls[-1][1] if ip.calls and isinstance(ip.calls[-1], tuple) and len(ip.calls[-1]) > 1 else FILE

    def havoc(self, ip, st, why, site):
        if self.pool is None or st.obj(self.pool) is None:
            return
        for name in sorted(self.counters):
            v = ip.fresh('count', (K(why), K(name)), 'int', site)
            st.put(self.pool, st.obj(self.pool).set(name, v))

    def acquire(self, ip, lock, st, site):
        if st.locks.count(lock) == 1:
            self.havoc(ip, st, 'in', site)

    def release(self, ip, lock, st, site):
        if lock not in st.locks:
            self.havoc(ip, st, 'out', site)

    def backedge(self, ip, node, st):
        keep = []
        for c in self.conns(st):
            if c[1][3][2] + c[1][4][2] == 1 and c[1][2] == K('live'):
                continue
            keep.append(c)
        if len(keep) > 4:
            self.fail('C26', 'connections are conserved', site_of(node), 'a loop lets connections pile up', st)
            keep = keep[:4]
        self.setc(st, keep)

    def ext_call(self, ip, name, args, kw, st, site):
        t, _, m = name.rpartition('.')
        if t in QUEUES:
            return self.queue(ip, m, args, kw, st, site)
        if t == 'socket.socket' and m == 'close':
            c = self.of_socket(st, args[0])
            if c is not None:
                self.closed(st, c, site)
        if t == 'socket.socket' and m == 'detach':
            return None
        if t == 'selectors.DefaultSelector' and m in ('register', 'select'):
            return self.select(ip, m, args, kw, st, site)
        return None

    def closed(self, st, c, site):
        self.count('closes')
        if c[4] == K(0) and c[2] != K('building'):
            self.slack(st, 1)
        if c[3] != K(0):
            self.fail('C26', 'connections are conserved', site, 'a connection is closed while it is in the pool', st)
        self.upd(st, c[0], closed=1)

    def queue(self, ip, m, args, kw, st, site):
        if m in ('get', 'get_nowait'):
            block = FALSE if m == 'get_nowait' else arg(args, kw, 1, 'block', TRUE)
            tmo = arg(args, kw, 2, 'timeout')
            out = []
            if not (block == TRUE and tmo == NONE):
                s2 = st.clone()
                s2.rs['drained'] = TRUE
                out.append(ip.raise_('queue.Empty', s2, site))
            self.count('taken from the pool')
            f = dict(self.proto.f)
            for k, v in list(f.items()):
                if v[0] == 'O' and self.psock.get(v) is not None:
                    f[k] = ip.alloc(st, 'deqsock@%s' % site, self.psock[v])
            ref = ip.alloc(st, 'deq@%s' % site, HObj('inst', self.proto.cls, f, {}))
            self.track(st, ref, 'deq')
            st.rs.pop('drained', None)
            return [(True, ref, st)] + out
        if m in ('put', 'put_nowait'):
            block = FALSE if m == 'put_nowait' else arg(args, kw, 2, 'block', TRUE)
            tmo = arg(args, kw, 3, 'timeout')
            out = []
            if not (block == TRUE and tmo == NONE):
                s2 = st.clone()
                out.append(ip.raise_('queue.Full', s2, site))
            c = self.find(st, args[1])
            self.count('put into the pool')
            if c is None:
                self.fail('C26', 'only connections of the pool are pooled', site, 'something else is put into the pool: %s' % show(args[1]), st)
            else:
                if c[3] != K(0):
                    self.fail('C26', 'connections are conserved', site, 'a connection is put into the pool twice', st)
                if c[4] != K(0):
                    self.fail('C26', 'connections are conserved', site, 'a closed connection is put into the pool', st)
                self.upd(st, c[0], pooled=1)
            return [(True, NONE, st)] + out
        return None

    def select(self, ip, m, args, kw, st, site):
        sel = args[0]
        if m == 'register':
            c = self.of_socket(st, args[1])
            s2 = st.clone()
            if c is not None:
                self.upd(s2, c[0], check='error')
            o = st.obj(sel)
            st.put(sel, o.set('reg', args[1]).set('events', arg(args, kw, 2, 'events')))
            return [(True, ext_obj(ip, st, 'selectors.SelectorKey', site, fileobj=args[1], events=arg(args, kw, 2, 'events'), fd=ip.fresh('fd', (), 'int', site)), st),
                    (False, ip.any_exc('builtins.OSError', ('register',)), s2), ip.raise_('builtins.ValueError', s2.clone(), site)]
        o = st.obj(sel)
        reg = o.f.get('reg')
        if reg is None:
            return None
        ev = const(o.f.get('events', NONE))
        tmo = arg(args, kw, 1, 'timeout')
        c = self.of_socket(st, reg)
        now = const(tmo)[0] and const(tmo)[1] is not None and const(tmo)[1] <= 0
        s_idle, s_err = st.clone(), st.clone()
        reads = ev[0] and isinstance(ev[1], int) and ev[1] & READ
        if c is not None and reads:
            self.upd(st, c[0], check='readable')
            self.upd(s_idle, c[0], check='idle')
        if c is not None:
            self.upd(s_err, c[0], check='error')
        from pysa.m_methods import new_list
        key = ext_obj(ip, st, 'selectors.SelectorKey', site, fileobj=reg, events=o.f.get('events', NONE), fd=ip.fresh('fd', (), 'int', site))
        full = new_list(ip, st, site, [T(key, o.f.get('events', NONE))])
        out = [(True, full, st), (False, ip.any_exc('builtins.OSError', ('select',)), s_err)]
        if tmo != NONE:
            out.append((True, new_list(ip, s_idle, site, []), s_idle))
        return out


def setup(rules, text=SETUP, name='pool', **kw):
    """an open pool: -> (scenario, monitor, pool, state)"""
    mon = Conns(rules)
    sc = Scenario(name, text, mon, thread='caller')
    (good, k, st), = [x for x in sc.run('key', host=K('127.0.0.1'), port=K(12200)) if x[0]]
    mon.conncls = sc.run('cls', st=st.clone())[0][1]
    cc, mon.conncls = mon.conncls, None
    ps = [(v, s) for o, v, s in sc.run('conn', st=st.clone(), k=k) if o]
    if not ps:
        raise Broken('no connection can be built')
    mon.proto = ps[0][1].obj(ps[0][0])
    mon.psock = {v: ps[0][1].obj(v) for v in mon.proto.f.values() if v[0] == 'O' and ps[0][1].obj(v) is not None and ps[0][1].obj(v).kind == 'ext'}
    if not any(o.cls[1] == 'socket.socket' for o in mon.psock.values()):
        raise Broken('a connection has no socket')
    base = dict(initial=ZERO, most=CAP, maxfree=sym('maxfree', 'int'), minfree=sym('minfree', 'int'), block=sym('block', 'bool'))
    base.update(kw)
    pools = [(v, s) for o, v, s in sc.run('make', st=st.clone(), k=k, **base) if o]
    if not pools:
        raise Broken('no path builds a pool')
    pool, st = pools[0]
    mon.counters = {n for n, v in st.obj(pool).f.items() if v == ZERO}
    mon.conncls = cc
    mon.preheap = set(st.heap) | set(st.base)
    if not mon.counters:
        raise Broken('the pool does not count its connections')
    mon.pool = pool
    st.rs.clear()
    st.rs['pool'] = pool
    mon.havoc(sc.ip, st, 'start', FILE)
    return sc, mon, k, pool, st


def settle(r, pid, mon, ip, op, ok, v, st, returned=None, open_pool=True):
    """every tracked connection is in exactly one place"""
    for c in mon.conns(st):
        ref, origin, state, pooled, closed, check = c[1]
        places = pooled[2] + closed[2] + (1 if returned is not None and ref == returned else 0)
        what = {'new': 'a connection it created', 'deq': 'a connection it took out of the pool', 'arg': 'the connection it was given'}[origin[2]]
        end = 'returning' if ok else 'raising %s' % exc_name(ip, v, st)
        where = exc_site(v, st) if not ok else FILE
        if places == 0:
            rule = 'connections are conserved'
            if op == 'get_conn' and origin == K('deq') and check == K('unchecked') and not ok and exc_name(ip, v, st) == 'EmptyPoolError':
                rule = 'a connection taken out survives a failed top-up'
            r.fail(rule, where, '%s: %s is lost when it ends by %s' % (op, what, end), st)
        elif places > 1:
            r.fail('connections are conserved', where, '%s: %s is in two places when it ends by %s' % (op, what, end), st)
        else:
            r.ok('%s: a connection ends up in exactly one place' % op)
    n = st.rs.get('slack', ZERO)[2]
    if open_pool:
        if n > 0:
            r.fail('closed connections are not counted', exc_site(v, st) if not ok else FILE, '%s: %d connection(s) stay counted that do not exist any more' % (op, n), st)
        elif n == 0:
            r.ok('%s: the count follows the connections' % op)


TIMEOUT = sym('timeout', 'float')


def ops(rules, on_end):
    """analyse every operation of an open and of a closed pool"""
    sc, mon, k, pool, st0 = setup(rules)
    n = 0
    for t in (NONE, TIMEOUT):
        outs = sc.run('get', st=st0.clone(), pool=pool, timeout=t)
        n += len(outs)
        for ok, v, s in outs:
            on_end(mon, sc.ip, 'get_conn', ok, v, s)
    outs = sc.run('close', st=st0.clone(), pool=pool)
    closed = [s for ok, v, s in outs if ok]
    for ok, v, s in outs:
        n += 1
        on_end(mon, sc.ip, 'close', ok, v, s)
    for ok, v, s in sc.run('leave', st=st0.clone(), pool=pool):
        n += 1
        on_end(mon, sc.ip, 'close', ok, v, s)
    pub = sc.ip.cls_lookup(st0.obj(pool).cls, 'discard_conn', st0)
    for op in ('put', 'discard') if pub else ('put',):
        for base, op_open in [(st0, True)] + [(s, False) for s in closed[:1]]:
            st = base.clone()
            st.rs.clear()
            st.rs['pool'] = pool
            ref = sc.ip.alloc(st, 'arg@%s' % op, HObj('inst', mon.proto.cls, dict(mon.proto.f), {}))
            for key, o in mon.psock.items():
                if st.obj(key) is None:
                    st.put(key, o)
            mon.track(st, ref, 'arg')
            for ok, v, s in sc.run(op, st=st, pool=pool, c=ref):
                n += 1
                on_end(mon, sc.ip, '%s_conn' % op, ok, v, s)
    return sc, mon, n


def c25(r, tier):
    rules = {'C25': r}
    # a pool starts with a count of zero and counts what it creates at once
    sc, mon, n = ops(rules, lambda *a: None)
    if not mon.counts.get('connections built') or not mon.counts.get('count updates'):
        raise Broken('the pool creates no connection')
    r.ran(sc, 'operations', n, **mon.counts)
    # the constructor
    sc, mon, k, pool, st = setup(rules)
    mon.pool, mon.ctor = None, True
    ctor(r, sc, mon, k, st)


def ctor(r, sc, mon, k, st):
    counters = mon.counters

    class Ctor(Conns):
        def alloc(self, ip, cls, ref, s, site):
            if self.poolcls is not None and cls[0] == 'O' and ip.is_sub(cls, self.poolcls, s):
                self.pool = ref
            Conns.alloc(self, ip, cls, ref, s, site)

        def store_attr(self, ip, ref, name, val, s):
            if ref == self.pool and name in self.counters and name not in s.obj(ref).f:
                n = const(val)
                if n[0] and n[1] == 0:
                    self.ok('C25', 'a pool starts with a count of zero')
                else:
                    self.fail('C25', 'the count starts at zero', FILE, 'the count starts at %s' % show(val), s)
                return
            self.preheap = set(s.heap) | set(s.base)
            Conns.store_attr(self, ip, ref, name, val, s)

    m2 = Ctor({'C25': r})
    for a in ('conncls', 'proto', 'psock', 'counters'):
        setattr(m2, a, getattr(mon, a))
    m2.poolcls = st.obj(mon.poolref).cls if getattr(mon, 'poolref', None) else None
    sc2 = Scenario('poolctor', SETUP, m2, thread='caller')
    s = st.clone()
    s.rs.clear()
    m2.poolcls = sc2.module()['ConnectionPool']
    outs = sc2.run('make', st=s, k=k, initial=sym('initial', 'int'), most=CAP, maxfree=sym('maxfree', 'int'), minfree=sym('minfree', 'int'), block=sym('block', 'bool'))
    if not any(o for o, _, _ in outs):
        raise Broken('no path builds a pool')
    r.ran(sc2, 'constructor', len(outs), **m2.counts)


def c26(r, tier):
    def end(mon, ip, op, ok, v, st):
        if op == 'close':
            settle(r, 'C26', mon, ip, op, ok, v, st, open_pool=False)
            if ok:
                r.check(st.rs.get('drained') == TRUE, 'closing a pool closes every pooled connection', FILE,
                        'close() ends with connections left in the pool', st)
            return
        settle(r, 'C26', mon, ip, op, ok, v, st, returned=v if ok and op == 'get_conn' else None)
        if ok and op == 'get_conn':
            c = mon.find(st, v)
            if c is None:
                r.fail('connections are conserved', FILE, 'get_conn returns %s' % show(v), st)
    sc, mon, n = ops({'C26': r}, end)
    r.ran(sc, 'operations', n, **mon.counts)


def c29(r, tier):
    def end(mon, ip, op, ok, v, st):
        if op != 'get_conn':
            return
        for c in mon.conns(st):
            ref, origin, state, pooled, closed, check = c[1]
            if ok and ref == v:
                if origin == K('new'):
                    r.ok('a new connection is handed out')
                elif check == K('idle') and closed == K(0):
                    r.ok('a pooled connection is handed out only after the check found it idle')
                else:
                    r.fail('dead connections are not handed out', FILE, 'a pooled connection is handed out that is %s' %
                           (check[2] if closed == K(0) else 'closed'), st)
            elif origin == K('deq') and check[2] in ('readable', 'error'):
                r.check(closed == K(1), 'a connection that fails the check is closed', FILE, 'a connection that fails the check (%s) is not closed' % check[2], st)
        if ok and mon.find(st, v) is None:
            r.fail('dead connections are not handed out', FILE, 'get_conn returns %s' % show(v), st)
    sc, mon, n = ops({'C29': r}, end)
    if not mon.counts.get('taken from the pool'):
        raise Broken('nothing is taken out of the pool')
    r.ran(sc, 'operations', n, **mon.counts)


# ---------------------------------------------------------------- the recently-used container

CSETUP = '''
from mysockpool.recently_used_container import RecentlyUsedContainer
from mysockpool import PoolManager, ConnectionPool
def container(most, sink): return RecentlyUsedContainer(most, dispose_func=lambda v: sink(v))
def plain(most): return RecentlyUsedContainer(most)
def get(c, k): return c[k]
def getd(c, k, d): return c.get(k, d)
def has(c, k): return k in c
def set_(c, k, v): c[k] = v
def delete(c, k): del c[k]
def pop(c, k): return c.pop(k)
def clear(c): c.clear()
def keys(c): return c.keys()
def length(c): return len(c)
def manager(n, arg): return PoolManager(n, min_free_connections=arg)
def key(host, port): return ConnectionPool.ConnectionCls.PoolKeyCls(host, port)
def make(k): return ConnectionPool(k)
def look(m, k): return m.connection_pool_from_pool_key(k)
'''
CFILE = 'mysockpool/recently_used_container.py'
MAX, SINK, KEY, NEW, OLD = S('len', (sym('maxsize', 'list'),), 'int'), sym('sink'), sym('key', 'str'), sym('new', 'value'), sym('old', 'value')
REMOVE = ('pop', 'popitem', 'clear', 'del', 'remove')


class Box(Monitor):
    """the entries of a container: under the lock, bounded, disposed of"""

    def __init__(self, r):
        self.r = r
        self.box = None
        self.lockset = None
        self.pre = ()
        self.counts = {}
        self.pool_cls = None

    def count(self, w):
        self.counts[w] = self.counts.get(w, 0) + 1

    def keep_fact(self, k):
        if self.box is None:
            return False
        n = S('len', (self.box,), 'int')
        return n in k[1:] or any(isinstance(t, tuple) and t[0] == 'S' and t[1] == 'lin' and any(x[0] == n for x in t[2][1]) for t in k[1:])

    def is_box(self, ref):
        return ref == self.box

    def room(self, ip, st):
        """is the size certainly at most the maximum less something"""
        n = S('len', (self.box,), 'int')
        o = st.obj(self.box)
        l = lin_of(n) if o.m.get('open') else {None: Fraction(len(o.m.get('items') or ()))}
        d = lin_add(l, lin_of(self.max), -1)
        if ip.know_pos(lin_add(d, {None: Fraction(1)}), st) is False:
            return -1
        if ip.know_pos(d, st) is False:
            return 0
        return None

    def over(self, ip, st):
        n = st.rs.get('over', ZERO)[2]
        k = self.room(ip, st)
        if k is not None:
            n = min(n, k)
        return n

    def dict_event(self, ip, op, ref, key, val, st, site):
        if not self.is_box(ref):
            return
        self.count('accesses')
        held = {l for l in st.locks if l[0] == 'O' and l[1] in self.pre}
        if not held:
            self.r.fail('entries are accessed under the lock', site, 'the entries are accessed (%s) without holding the lock' % op, st)
        else:
            self.lockset = held if self.lockset is None else self.lockset & held
            if not self.lockset:
                self.r.fail('entries are accessed under the lock', site, 'the entries are accessed under different locks', st)
            else:
                self.r.ok('the entries are accessed under the lock')
        n = self.over(ip, st)
        if op in ('set', 'setdefault'):
            g = st.rs.get('put')
            st.rs['put'] = T(*((list(g[1]) if g is not None else []) + [T(key, val)]))
        if op == 'set' or op == 'setdefault':
            here = self.present(ip, key, st, ref)
            if here is None:
                self.r.fail('what an insertion replaces is known in the same critical section', site,
                            'an entry is written although another thread may have written it since it was looked up', st)
            elif here is False:
                n += 1
            elif self.pool_cls is not None:
                self.r.fail('no pool is replaced', site, 'a pool is filed under an address for which there may be one already', st)
        elif op in ('pop', 'popitem', 'del'):
            if op == 'popitem' and key != FALSE:
                self.r.fail('the least recently used entry is evicted', site, 'the most recently used entry is evicted', st)
            if op == 'popitem' or self.present(ip, key, st, ref) is not False:
                n -= 1
        elif op == 'clear':
            n = -1
        st.rs['over'] = K(max(-2, min(n, 3)))

    def present(self, ip, key, st, ref):
        o = st.obj(ref)
        from pysa.m_data import value_eq
        for kk, _ in o.m.get('items') or ():
            if value_eq(ip, kk, key, st) is True:
                return True
        if not o.m.get('open') and not o.m.get('gen'):
            return False
        f = st.facts.get(('in', key, ref))
        return f

    def alloc(self, ip, cls, ref, st, site):
        if cls == self.pool_cls:
            g = st.rs.get('made')
            st.rs['made'] = T(*((list(g[1]) if g is not None else []) + [ref]))

    def bounded(self, ip, st, site):
        n = self.over(ip, st)
        self.r.check(n <= 0, 'the container holds at most its maximum once an insertion is complete', site,
                     'the lock is released with possibly more entries than the maximum', st)
        st.rs['over'] = ZERO

    def release(self, ip, lock, st, site):
        if self.box is None or st.obj(self.box) is None or lock[1] not in self.pre or lock in st.locks:
            return
        self.bounded(ip, st, site)
        # other threads may do anything now
        if self.concurrent:
            o = st.obj(self.box)
            st.rs['last'] = T(*[T(k, v) for k, v in o.m.get('items') or ()])
            for f in [f for f in st.facts if f[0] == 'in' and f[-1] == self.box]:
                if st.facts[f] is False and f[1][0] == 'S' and f[1][1] == 'popkey':
                    self.gone(st, S('item', (o.m.get('src', self.box), f[1]), o.m.get('vt')))
                del st.facts[f]
            st.put(self.box, o.meta(items=(), open=True))
            ip.invalidate(st, S('len', (self.box,), 'int'))
            self.within(ip, st)

    def within(self, ip, st):
        k = ip.pos_key(lin_add({S('len', (self.box,), 'int'): Fraction(1)}, lin_of(self.max), -1))
        if k not in (True, False):
            st.facts[k[0]] = not k[1]

    def gone(self, st, v):
        g = st.rs.get('gone')
        st.rs['gone'] = T(*((list(g[1]) if g is not None else []) + [v]))

    def ext_call(self, ip, name, args, kw, st, site):
        if name == 'call:' and args[0] == SINK:
            self.count('disposals')
            g = st.rs.get('disposed')
            st.rs['disposed'] = T(*((list(g[1]) if g is not None else []) + [args[1]]))
            return [(True, NONE, st)]
        return None


def boxed(r, how='container', entries=None, concurrent=True, **params):
    """a container whose entries are the given ones, or anything"""
    mon = Box(r)
    mon.concurrent = concurrent
    mon.max = params.get('most', MAX)
    sc = Scenario('box', CSETUP, mon, thread='caller')
    outs = [(v, s) for ok, v, s in sc.run(how, **params) if ok]
    if not outs:
        raise Broken('no path builds a container')
    c, st = outs[0]
    st = st.clone()
    box = None
    seen, work = set(), [c]
    while work:
        x = work.pop()
        o = st.obj(x) if x[0] == 'O' else None
        if o is None or x in seen:
            continue
        seen.add(x)
        if o.kind == 'dict' and o.m.get('of') is None and x[1] in st.heap and not o.m.get('items'):
            box = x if box is None else box
        if o.kind == 'inst':
            work.extend(v for _, v in sorted(o.f.items()))
    if box is None:
        raise Broken('the container has no dictionary')
    mon.box = box
    mon.pre = set(st.heap) | set(st.base)
    o = st.obj(box)
    if entries is None:
        st.put(box, o.meta(open=True, vt='value'))
        mon.within(sc.ip, st)
    else:
        st.put(box, o.meta(items=tuple(entries)))
    st.rs.clear()
    st.rs['c'] = c
    return sc, mon, c, st


def left(mon, st, key, old, final):
    """values that left the container"""
    out = list(st.rs['gone'][1]) if st.rs.get('gone') is not None else []
    box = st.obj(mon.box)
    for f, v in st.facts.items():
        if f[0] == 'in' and f[-1] == mon.box and v is False and f[1][0] == 'S' and f[1][1] == 'popkey':
            out.append(S('item', (box.m.get('src', mon.box), f[1]), box.m.get('vt')))
    return out


def c27(r, tier):
    total = 0
    # one operation, on any contents
    for op, present in [(o, p) for o in ('get', 'getd', 'has', 'set_', 'delete', 'pop') for p in (True, False)] + [('keys', None), ('length', None)]:
        sc, mon, c, st = boxed(r, concurrent=op != 'pop', most=MAX, sink=SINK)
        box = mon.box
        kw = dict(k=KEY) if present is not None else {}
        if present:
            st.put(box, st.obj(box).meta(items=((KEY, OLD),)))
            st.facts[('pos', S('len', (box,), 'int'))] = True
        elif present is False:
            st.facts[('in', KEY, box)] = False
        if op == 'set_':
            kw['v'] = NEW
        if op == 'getd':
            kw['d'] = NONE
        outs = sc.run(op, st=st, c=c, **kw)
        total += len(outs)
        for ok, v, s in outs:
            mon.bounded(sc.ip, s, CFILE)
            last = s.rs.get('last')
            final = dict(x[1] for x in last[1]) if last is not None else dict(s.obj(box).m.get('items') or ())
            want = left(mon, s, KEY, OLD, final)
            if present and final.get(KEY) != OLD:
                want.append(OLD)
            if op == 'set_' and ok and final.get(KEY) != NEW:
                want.append(NEW)
            got = list(s.rs['disposed'][1]) if s.rs.get('disposed') is not None else []
            where = CFILE if ok else exc_site(v, s)
            if sorted(map(repr, want)) == sorted(map(repr, got)):
                r.ok('%s: every value that leaves is disposed of once, and no other' % op.strip('_'))
            else:
                for x in want:
                    if got.count(x) != want.count(x):
                        r.fail('values that leave are disposed of exactly once', where, '%s of %s key: %s leaves and is disposed of %d times' % (
                            op.strip('_'), 'a present' if present else 'an absent', show(x), got.count(x)), s)
                for x in got:
                    if x not in want:
                        r.fail('values that leave are disposed of exactly once', where, '%s of %s key: %s is disposed of although it stays' % (
                            op.strip('_'), 'a present' if present else 'an absent', show(x)), s)
            if op in ('get', 'getd', 'pop') and present:
                r.check(ok and v == OLD, '%s returns the entry' % op, where, '%s of a present key gives %s' % (op, show(v) if ok else exc_name(sc.ip, v, s)), s)
            if op == 'set_' and not ok:
                r.fail('insertions succeed', where, 'an insertion raises %s' % exc_name(sc.ip, v, s), s)
            if op == 'keys' and ok and v[0] == 'S' and v[1] == 'view':
                r.fail('entries are accessed under the lock', CFILE, 'a live view of the entries is handed out', s)
        if not mon.counts.get('accesses'):
            raise Broken('%s does not touch the container' % op)
        r.ran(sc, '%s %s' % (op, present), len(outs), **mon.counts)
    # order, on known contents
    k1, k2, k3, k4 = (K('k%d' % i) for i in range(1, 5))
    v1, v2, v3, v4 = (sym('v%d' % i, 'value') for i in range(1, 5))
    for n in (0, 1, 3):
        ents = [(k1, v1), (k2, v2), (k3, v3)][:n]
        sc, mon, c, st = boxed(r, entries=ents, concurrent=False, most=K(3), sink=SINK)
        outs = sc.run('clear', st=st, c=c)
        for ok, v, s in outs:
            got = list(s.rs['disposed'][1]) if s.rs.get('disposed') is not None else []
            r.check(ok and got == [v for _, v in ents], 'clearing disposes of every value once, oldest first', CFILE,
                    'clearing %d entries disposes of %s' % (n, [show(g) for g in got]), s)
            r.check(not s.obj(mon.box).m.get('items'), 'clearing removes every entry', CFILE, 'entries stay after clearing', s)
        r.ran(sc, 'clear %d' % n, len(outs), **mon.counts)
    for ents, used, adds, gone in (([(k1, v1), (k2, v2), (k3, v3)], k1, [k4], [v2]), ([(k1, v1), (k2, v2), (k3, v3)], k2, [k4], [v1]),
                                   ([(k1, v1), (k2, v2), (k3, v3)], k3, [k4], [v1]),
                                   # used before the container was full
                                   ([(k1, v1), (k2, v2)], k1, [k3, k4], [v2]), ([(k1, v1), (k2, v2)], k2, [k3, k4], [v1]),
                                   ([(k1, v1), (k2, v2)], k1, [k3, k4, K('k5')], [v2, v1])):
        for how in ('get', 'getd'):
            sc, mon, c, st = boxed(r, entries=ents, concurrent=False, most=K(3), sink=SINK)
            states = [(ok, s) for ok, v, s in sc.run(how, st=st, c=c, k=used, **({'d': NONE} if how == 'getd' else {}))]
            for k, v in zip(adds, (v4, NEW, OLD)):
                states = [(ok and o2, s2) for ok, s in states for o2, _, s2 in sc.run('set_', st=s, c=c, k=k, v=v)]
            for ok, s in states:
                got = list(s.rs['disposed'][1]) if s.rs.get('disposed') is not None else []
                r.check(ok and got == gone, 'the least recently used entry is evicted', CFILE, 'after using %s of %d entries, inserting %d more evicts %s' %
                        (used[2], len(ents), len(adds), [show(g) for g in got]), s)
            r.ran(sc, 'use %s of %d' % (used[2], len(ents)), len(states), **mon.counts)


def c28(r, tier):
    """one pool per address"""
    K1 = None
    for present in (True, False):
        for concurrent in (False, True):
            sc, mon, m, st = boxed(r, 'manager', concurrent=concurrent, n=MAX, arg=sym('minfree', 'int'))
            mon.max = MAX
            (good, key, st), = [x for x in sc.run('key', st=st, host=sym('host', 'str'), port=sym('port', 'int')) if x[0]]
            st.rs['key'] = key
            ps = [(v, s) for ok, v, s in sc.run('make', st=st, k=key) if ok]
            if not ps:
                raise Broken('no path builds a pool')
            pool, st = ps[0]
            st.locks, st.tmp, st.stack = (), (), ()
            st.rs = {'c': m, 'key': key, 'pool': pool}
            box = mon.box
            mon.pre = set(st.heap) | set(st.base)
            mon.sets, mon.built_pools = [], []
            mon.pool_cls = st.obj(pool).cls
            # in whatever condition the pool is by now
            o = st.obj(pool)
            for n, v in sorted(o.f.items()):
                if v[0] == 'K' and v[1] == 'int':
                    o = o.set(n, sym('pool_' + n.strip('_'), 'int'))
            st.put(pool, o)
            if present:
                st.put(box, st.obj(box).meta(items=((key, pool),)))
                st.facts[('pos', S('len', (box,), 'int'))] = True
            else:
                st.facts[('in', key, box)] = False
            outs = sc.run('look', st=st, m=m, k=key)
            for ok, v, s in outs:
                where = FILE if ok else exc_site(v, s)
                made = list(s.rs['made'][1]) if s.rs.get('made') is not None else []
                put = list(s.rs['put'][1]) if s.rs.get('put') is not None else []
                if present:
                    r.check(ok and v == pool and not made, 'a known address gets its pool', where, 'an address that has a pool gets %s' % (
                        show(v) if ok else exc_name(sc.ip, v, s)) if v != pool else 'another pool is built for an address that has one', s)
                    r.check(concurrent or s.obj(box).m.get('items') == ((key, pool),), 'a known address keeps its pool', where,
                            'after a lookup the address has %s' % show(T(*[T(*x) for x in s.obj(box).m.get('items') or ()])), s)
                elif ok:
                    r.check(len(put) == 1 and put[0] == T(key, v), 'a new pool is filed under its address in the step that found none', where,
                            'the pool handed out is not the one that was filed under the address', s)
                else:
                    r.check(not put, 'a failed lookup files nothing', where, 'a lookup that fails leaves %s behind' % show(put[0]) if put else '', s)
            if not mon.counts.get('accesses'):
                raise Broken('the manager does not look into its container')
            r.ran(sc, 'lookup present=%s others=%s' % (present, concurrent), len(outs), **mon.counts)
    from .bclient import managers
    managers(r)
