id='c26-close-stops-at-falsy'; prop='C26'
needs='a pool with more idle connections than its minimum is closed'
breaks='closing a pool leaves the remaining idle connections open'
edits=[('mysockpool/connection_pool.py','''        try:
            while True:
                conn = old_pool.get(block=False)
                if conn:
                    conn.close()

        except queue.Empty:
            pass  # Done.''','''        for _ in range(self.min_free_connections):
            try:
                conn = old_pool.get(block=False)
            except queue.Empty:
                break  # Done.
            if conn:
                conn.close()''')]
demo=open('/verif/tools/specs/_pool.txt').read()+'''
pool = ConnectionPool(KEY, initial_connections=3)
conns = list(pool.pool.queue)
pool.close()
assert all(c.sock.fileno() == -1 for c in conns), [c.sock.fileno() for c in conns]
'''
