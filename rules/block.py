"""calls that block the calling thread (C12)"""
from .base import *
from pysa.m_lib import arg

ALWAYS = {'time.sleep', 'socket.create_connection', 'socket.getaddrinfo', 'select.select', 'select.poll.poll', 'os.system', 'builtins.input',
          'urllib.request.urlopen', 'concurrent.futures.wait', 'concurrent.futures.as_completed', 'http.client.HTTPConnection.request',
          'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'os.waitpid', 'signal.pause',
          'threading.Thread.join', 'threading.Event.wait', 'threading.Condition.wait', 'threading.Condition.wait_for', 'threading.Barrier.wait',
          'socket.socket.connect', 'socket.socket.recv', 'socket.socket.recv_into', 'socket.socket.send', 'socket.socket.sendall',
          'socket.socket.accept', 'socket.socket.sendto', 'socket.socket.recvfrom', 'rfile.read', 'wfile.write',
          'socket.gethostbyname', 'socket.gethostbyname_ex', 'socket.gethostbyaddr', 'socket.getnameinfo', 'socket.getfqdn', 'socket.create_server',
          'socket.socket.recvmsg', 'socket.socket.sendmsg', 'socket.socket.sendfile', 'select.epoll.poll', 'select.kqueue.control', 'os.popen', 'os.wait',
          'subprocess.Popen.wait', 'subprocess.Popen.communicate', 'subprocess.getoutput', 'subprocess.getstatusoutput', 'signal.sigwait',
          'http.client.HTTPConnection.getresponse', 'http.client.HTTPConnection.connect', 'http.client.HTTPSConnection.request',
          'multiprocessing.connection.wait', 'threading.Timer.join', 'selectors.SelectSelector.select', 'selectors.PollSelector.select',
          'selectors.EpollSelector.select', 'asyncio.run', 'asyncio.Loop.run_until_complete', 'asyncio.Loop.run_forever',
          'selectors.DefaultSelector.select', 'multiprocessing.Process.join', 'queue.Queue.join'}
QUEUES = ('queue.Queue', 'queue.LifoQueue', 'queue.SimpleQueue', 'queue.PriorityQueue')
VERBS = ('get', 'post', 'put', 'delete', 'head', 'options', 'request', 'patch', 'send')


class Blocking(object):
    """mixed into a monitor: knows which futures are filled by another thread"""

    def __init__(self):
        self.foreign = set()      # sites of futures another thread completes
        self.cb = 0

    def spawned(self, how, site):
        if how in ('submit', 'threadsafe'):
            self.foreign.add(site)

    def blocks(self, ip, name, args, kw, st, site):
        """why this call blocks its thread, or None"""
        if name in ALWAYS:
            return name
        t, _, m = name.rpartition('.')
        if t.startswith('requests') and m in VERBS:
            return name
        if t in QUEUES and m in ('get', 'put'):
            i = 2 if m == 'put' else 1
            b = arg(args, kw, i, 'block', TRUE)
            return None if b == FALSE else name
        if m in ('result', 'exception') and t in ('FUT', 'concurrent.futures.Future'):
            f = args[0]
            if t == 'FUT' and (f[3] not in self.foreign or self.done(f, st)):
                return None
            return 'waiting for a future of another thread'
        if t in ('threading.Semaphore', 'threading.BoundedSemaphore') and m in ('acquire', '__enter__'):
            b = arg(args, kw, 1, 'blocking', TRUE)
            return None if b == FALSE else name
        if t == 'concurrent.futures.ThreadPoolExecutor' and m in ('__exit__',):
            return 'waiting for the executor'
        return None

    def done(self, f, st):
        d = st.rs.get('done')
        return d is not None and K(f[3]) in d[1]

    def awaited(self, name, args, st):
        """futures that were awaited are complete"""
        if not name.startswith('await:'):
            return
        sites = sorted({x[3] for a in args for x in walk(a) if x and x[0] == 'FUT' and x[3] in self.foreign})
        if sites:
            d = st.rs.get('done')
            old = set(d[1]) if d is not None else set()
            st.rs['done'] = T(*sorted(old | {K(s) for s in sites}, key=repr))


# ---------------------------------------------------------------- what belongs to a loop thread (C20)

READS = ('get', 'getitem', 'in', 'iter', 'len')
FROM_ANYWHERE = ('asyncio.Loop.call_soon_threadsafe', 'asyncio.Loop.is_running', 'asyncio.Loop.is_closed', 'asyncio.Loop.get_debug',
                 'asyncio.Loop.time')
OWNED = ('asyncio.Loop.', 'asyncio.Event.', 'asyncio.Lock.', 'asyncio.Condition.', 'asyncio.Semaphore.', 'asyncio.Queue.', 'asyncio.StreamWriter.',
         'asyncio.StreamReader.', 'asyncio.Server.', 'asyncio.Transport.', 'asyncio.Task.')


class Touches(object):
    """mixed into a monitor: containers and asyncio objects, and the threads that touch them"""
    watch = False

    def begin(self, sc, st):
        """what lives when the watch begins"""
        self.before = frozenset(st.heap) | frozenset(sc.prog.base)
        self.touched = {}       # (container, 'w' | 'r') -> {thread: site}
        self.watch = True

    def touch(self, ip, ref, op, st, site):
        if self.watch and ref[0] == 'O' and ref[1] in self.before:
            t = 'loop' if ip.thread == 'loop' else 'worker' if ip.thread == 'worker' else 'caller'
            self.touched.setdefault(ref[1], {}).setdefault((t, 'r' if op in READS else 'w'), (site, st))

    def used(self, ip, name, args, st, site):
        if not self.watch or ip.thread == 'loop':
            return
        if name.startswith('await:'):
            name = name[6:]
        if name == 'FUT.cancel' and args[0][0] == 'FUT' and args[0][2][0] == 'S' and args[0][2][1] == 'task':
            name = 'asyncio.Task.cancel'
        if name.startswith(OWNED) and name not in FROM_ANYWHERE:
            self.count('asyncio objects')
            self.fail('C20', 'asyncio objects are used on the loop thread only', site, '%s is called on another thread than that of the loop' % name, st)
        elif name.startswith('asyncio.'):
            self.ok('C20', 'callers reach the loop through thread-safe calls only')

    def settle(self, r, seen):
        """seen: what all runs touched"""
        for oid, d in sorted(seen.items(), key=repr):
            w = d.get(('loop', 'w'))
            if w is None:
                continue
            self.count('containers of the loop')
            bad = [x for (t, m), x in sorted(d.items(), key=lambda y: repr(y[0])) if t != 'loop']
            for site, st in bad:
                r.fail('tables of the loop are used on its thread only', site,
                       'a table that the loop thread changes (at %s) is used on another thread' % w[0], st)
            if not bad:
                r.ok('tables that the loop thread changes are used on its thread only')
