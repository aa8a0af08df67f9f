id='c28-create-outside-lock'; prop='C28'
needs='two threads ask for the same new address at the same time'
breaks='each gets a pool of its own, and one of them is closed under its user'
edits=[('mysockpool/pool_manager.py','''            # Make a fresh ConnectionPool of the desired type
            pool = self._new_pool(pool_key)
            self.pools[pool_key] = pool

        return pool''','''        # Make a fresh ConnectionPool of the desired type; dialing takes a while, do not block the other addresses
        pool = self._new_pool(pool_key)
        self.pools[pool_key] = pool

        return pool''')]
demo=open('/verif/tools/specs/_pool.txt').read()+'''
m = PoolManager(4)
new = m._new_pool
def slow(k):
    time.sleep(0.3)
    return new(k)
m._new_pool = slow
got = []
ts = [threading.Thread(target=lambda: got.append(m.connection_pool_from_pool_key(KEY))) for _ in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
assert len(set(map(id, got))) == 1, got
'''
