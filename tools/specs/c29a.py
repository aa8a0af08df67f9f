id='c29-errors-count-as-alive'; prop='C29'
needs='checking a pooled connection fails (its socket was closed meanwhile)'
breaks='a connection that cannot be checked is handed out'
edits=[('mysockpool/utils.py','''    except:
        return True''','''    except (OSError, ValueError):
        return False''')]
demo=open('/verif/tools/specs/_pool.txt').read()+'''
pool = ConnectionPool(KEY, initial_connections=1, min_free_connections=0)
pool.pool.queue[0].sock.close()
c = pool.get_conn()
assert c.sock.fileno() != -1, 'a closed connection was handed out'
'''
