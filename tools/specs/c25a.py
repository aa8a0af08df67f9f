id='c25-check-then-count'; prop='C25'
needs='threads create connections at the same time, each passing the check before any is counted'
breaks='the number of connections exceeds the cap'
edits=[('mysockpool/connection_pool.py','''        with self._lock:
            if self.num_connections >= self.max_connections:
                raise EmptyPoolError(self,
                                     "Pool reached maximum size and no more "
                                     "connections are allowed.")
            self.num_connections += 1

        log.debug(''','''        if self.num_connections >= self.max_connections:
            raise EmptyPoolError(self,
                                 "Pool reached maximum size and no more "
                                 "connections are allowed.")
        self._count_one()

        log.debug('''),('mysockpool/connection_pool.py','''    def get_conn(self''','''    def _count_one(self):
        with self._lock:
            self.num_connections += 1

    def get_conn(self''')]
demo=open('/verif/tools/specs/_pool.txt').read()+'''
from unittest import mock
class Lock(object):
    """lets the others get as far as they can"""
    def __init__(self): self.l = threading.RLock()
    def __enter__(self): time.sleep(0.2); self.l.acquire()
    def __exit__(self, *a): self.l.release()
pool = ConnectionPool(KEY, initial_connections=0, max_connections=2)
pool._lock = Lock()
got = []
def one():
    try: got.append(pool._new_conn())
    except EmptyPoolError: pass
ts = [threading.Thread(target=one) for _ in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert len(got) == 2, len(got)
'''
