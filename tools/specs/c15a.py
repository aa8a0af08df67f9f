id='c15-close-after-report'; prop='C15'
needs='a connection that is closed by its peer in the middle of a frame'
breaks='the report to a peer that is gone is no longer protected, and its failure leaves the handler before the connection is closed'
edits=[('anthunder/listener/aio_listener.py','''                logger.warning("Connection closed by remote: {}".format(e))
                try:
''','''                logger.warning("Connection closed by remote: {}".format(e))
                if header is None and not first_req:
                    break
                try:
''')]
breaks='a clean end of stream after the first request leaves the handler without closing the connection'
needs='a peer that closes its sending side after having sent at least one whole request'
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
listen(12306, {'s': Svc})
s = socket.create_connection(('127.0.0.1', 12306)); s.settimeout(4)
a = req(body=b'z'); s.sendall(a.to_stream()); response(s)
s.shutdown(socket.SHUT_WR)
assert s.recv(1) == b''
# the server has really closed its socket: writing is refused sooner or later
import gc; gc.collect()
import subprocess, os
n = 0
for _ in range(20):
    n = sum(1 for l in open('/proc/net/tcp') if ':%04X ' % 12306 in l and l.split()[3] in ('08',))
    if not n: break
    time.sleep(0.1)
assert not n, 'server socket still in CLOSE_WAIT'
'''
