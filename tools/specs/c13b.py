id='c13-server-retries-empty-reads'; prop='C13'
needs='a client that disconnects in the middle of a frame sent to the threaded server'
breaks='the threaded server takes an empty read for a hiccup and reads again for ever'
edits=[('anthunder/listener/sock_listener.py','''        bs = b''
        while len(bs) < bs_cnt:
            chunk = self.rfile.read(bs_cnt - len(bs))
            if not chunk:
                raise EOFError("connection closed by remote")
''','''        bs = b''
        while len(bs) < bs_cnt:
            chunk = self.rfile.read(bs_cnt - len(bs))
            if not chunk and not bs:
                raise EOFError("connection closed by remote")
'''),('anthunder/listener/sock_listener.py','''    def _readexactly(self, bs_cnt):''','''    def _readexactly(self, bs_cnt: int) -> bytes:''')]
demo='''
import socket, threading, time, os, logging
logging.disable(logging.CRITICAL)
from anthunder import SockListener
from anthunder.protocol import BoltRequest, SofaHeader
l = SockListener(('127.0.0.1', 12342), 'app')
l.run_threading()
for _ in range(100):
    try:
        socket.create_connection(('127.0.0.1', 12342)).close(); break
    except OSError:
        time.sleep(0.05)
time.sleep(0.3)
n = threading.active_count()
s = socket.create_connection(('127.0.0.1', 12342))
m = BoltRequest.new_request(SofaHeader(service='s'), b'body').to_stream()
s.sendall(m[:-2]); s.close()
time.sleep(1)
for _ in range(30):
    if threading.active_count() <= n: os._exit(0)
    time.sleep(0.1)
os._exit(1)
'''
