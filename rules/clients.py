"""C11, C12, C13, C16-C19, C21, C22, C24, C26: the checks that look at both clients, and at a server"""
from .base import *
from . import aclient, bclient, pool, server

# configurations of the asyncio client: how the call is made, and what happens around it
STATUS = tuple('good:%d' % i for i in (0, 1, 2, 6, 7))
LOSS = ('eof', 'reset', 'timeout', 'cancel', 'cut')
PLAIN = ('sync', {})
ANSWERS = ('sync', dict(sends_fail=False, dial_fails=False, plans=STATUS + ('any', 'other good:0', 'other any', 'any any') + LOSS, early=('good:0', 'any', 'eof')))
LOST = ('sync', dict(plans=('good:0', 'other eof') + LOSS, early=('good:0', 'eof', 'reset', 'timeout', 'cancel')))
CANCEL = ('sync', dict(cancel=True, plans=('good:0', 'other good:0', 'reset'), late=('any', 'good:0', 'good:7')))
OTHERS = ('sync', dict(others=1, at=('dial', 'lock', 'drain', 'wait'), plans=('good:0', 'good:0@B', 'good:0@B good:0', 'reset'),
                       plans2=('good:0', 'good:0@A', 'good:0@A good:0', 'good:0 good:0@A', 'reset')))
FEWER = ('sync', dict(others=1, sends_fail=False, dial_fails=False, at=('dial', 'lock', 'drain', 'wait'), plans=('good:0', 'good:0@B good:0', 'good:0 good:0@B', 'reset'),
                      plans2=('good:0', 'good:0@A good:0', 'good:0 good:0@A', 'reset')))
ONEWAY = ('oneway', dict(late=('any', 'good:0'), early=('good:0', 'eof')))
RETRY = ('sync', dict(sends_fail='always', dial_fails=False))
ASYN = ('asyn', dict(plans=STATUS + ('any', 'other good:0') + LOSS, sends_fail=False))
CALLBACK = ('asyncb', dict(plans=STATUS + ('any',) + LOSS, sends_fail=False))
BEAT = ('beat', dict(plans=('goodbeat:0', 'goodbeat:1', 'any', 'other goodbeat:0') + LOSS))
NAMES = {id(v): k for k, v in list(globals().items()) if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict)}


def acall(pid, conf, needs=()):
    how, env = conf

    def job(r):
        sc, mon, outs = aclient.call({pid: r}, how, **env)
        for w in ('dials', 'writes', 'reader tasks', 'calls over') + tuple(needs):
            if not mon.counts.get(w) and not r.findings:
                raise Broken('the asyncio client: no %s' % w)
        r.ran(sc, 'asyncio client, %s' % NAMES[id(conf)].lower(), len(outs), **mon.counts)
    return job


def bcall(pid, how, lossy, needs=()):
    def job(r):
        sc, mon, outs = bclient.client({pid: r}, how, lossy)
        for w in ('sends', 'frames') + tuple(needs):
            if not mon.counts.get(w) and not r.findings:
                raise Broken('the blocking client: no %s' % w)
        r.ran(sc, 'blocking client, %s%s' % (how, ', sends fail' if lossy else ''), len(outs), **mon.counts)
    return job


def both(pid, needs=(), hows=('sync', 'oneway')):
    return [bcall(pid, how, lossy, needs if not lossy and how == 'sync' else ()) for how in hows for lossy in (True, False)]


def served(pid, f=server.aio):
    return lambda r: f(pid)(r, 'quick')


WAIT = ('waits for a response', 'times the reader ran', 'reads')


def c11(r, tier):
    r.parallel([acall('C11', c) for c in (PLAIN, OTHERS, ONEWAY, CALLBACK, BEAT)] + both('C11', ('reads',)) + [served('C11')])


def c12(r, tier):
    r.parallel([acall('C12', c, WAIT) for c in (PLAIN, LOST, CANCEL, ASYN, CALLBACK, BEAT)] + [acall('C12', ONEWAY)] + [served('C12')])


def c13(r, tier):
    r.parallel([bcall('C13', 'sync', False, ('reads at the end',)), served('C13', server.sock), exact])


def exact(r):
    """SocketConnection.recvexactly"""
    bclient.exactly(r)


def c16(r, tier):
    r.parallel([acall('C16', c, WAIT) for c in (PLAIN, ANSWERS, LOST, CANCEL, OTHERS)] + [bcall('C16', 'sync', False, ('results',))])


def c17(r, tier):
    r.parallel([acall('C17', c, WAIT) for c in (PLAIN, ANSWERS, LOST, OTHERS, ASYN, BEAT)])


def c18(r, tier):
    r.parallel([acall('C18', c, WAIT) for c in (PLAIN, ANSWERS, LOST, CANCEL, FEWER)] + both('C18'))


def c19(r, tier):
    r.parallel([acall('C19', c, WAIT) for c in (PLAIN, ANSWERS, LOST, CANCEL, FEWER, ASYN, BEAT)] + [acall('C19', ONEWAY)])


def c20(r, tier):
    runs = [('sync', dict(plans=('good:0', 'any', 'eof'))), ('sync', dict(cancel=True, plans=('good:0', 'reset'), late=('any',))),
            ONEWAY, ('asyncb', dict(plans=('good:0', 'good:7', 'reset'))), ASYN, ('sub', {}), ('unsub', {})]
    r.parallel([lambda q: aclient.touches(q, runs), server.touches])


def c21(r, tier):
    r.parallel([acall('C21', c) for c in (PLAIN, OTHERS, LOST, ONEWAY, RETRY)])


def c22(r, tier):
    r.parallel([acall('C22', ONEWAY)] + both('C22', hows=('oneway',)))


def ticks(r):
    sc, mon, outs = aclient.timer({'C23': r}, **BEAT[1])
    for w in ('heartbeats sent', 'rounds', 'dials', 'times the reader ran'):
        if not mon.counts.get(w) and not r.findings:
            raise Broken('the heartbeat timer: no %s' % w)
    r.ran(sc, 'heartbeat timer', len(outs), **mon.counts)


def c23(r, tier):
    r.parallel([acall('C23', BEAT, WAIT + ('good heartbeats',)), ticks])


def c24(r, tier):
    r.parallel([acall('C24', c, ('waits',)) for c in (PLAIN, CANCEL)] + both('C24', hows=('sync',)) + [served('C24')])


def c26(r, tier):
    r.parallel([lambda q: pool.c26(q, tier)] + both('C26', ('connections returned',)))
