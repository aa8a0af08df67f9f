id='c27-evict-after-unlock'; prop='C27'
needs='two threads insert at the same time; or an insertion that replaces a key in a full container'
breaks='the container holds more than its maximum, and evictions race'
edits=[('mysockpool/recently_used_container.py','''            # If we didn't evict an existing value, we might have to evict the
            # least recently used item from the beginning of the container.
            if len(self._container) > self._maxsize:
                _key, evicted_value = self._container.popitem(last=False)

''','''        # If we didn't evict an existing value, we might have to evict the
        # least recently used item from the beginning of the container.
        if evicted_value is _Null:
            with self.lock:
                if len(self._container) > self._maxsize:
                    _key, evicted_value = self._container.popitem(last=False)

''')]
demo='''
import threading
from mysockpool.recently_used_container import RecentlyUsedContainer
c = RecentlyUsedContainer(2)
most = [0]
class Lock(object):
    def __init__(self): self.l = threading.RLock(); self.d = 0
    def __enter__(self): self.l.acquire(); self.d += 1
    def __exit__(self, *a):
        self.d -= 1
        if not self.d:
            most[0] = max(most[0], len(c._container))
        self.l.release()
c.lock = Lock()
for i in range(5):
    c[i] = i
assert most[0] <= 2, most
'''
