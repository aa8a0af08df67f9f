id='c13-eof-midway'; prop='C13'
needs='a peer that closes its connection in the middle of what is read'
breaks='only an end of stream before the first byte ends the exact-size read; in the middle it is read again for ever'
edits=[('mysockpool/connection.py','''            bs = self.sock.recv(size - read)
            if not bs:
''','''            bs = self.sock.recv(min(size - read, 65536))
            if not bs and not read:
''')]
demo='''
import socket, threading, os
from mysockpool.connection import SocketConnection
l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(1)
a = l.getsockname()
c = SocketConnection(SocketConnection.PoolKeyCls(*a), blocking=True)
s, _ = l.accept()
s.sendall(b'abc'); s.close()
out = []
def run():
    try:
        out.append(c.recvexactly(5))
    except Exception as e:
        out.append(e)
t = threading.Thread(target=run, daemon=True); t.start(); t.join(5)
os._exit(0 if out and not isinstance(out[0], bytes) else 1)
'''
