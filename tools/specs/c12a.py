id='c12-name-resolved-on-the-loop'; prop='C12'
needs='an address whose name takes long to resolve, while another call is pending'
breaks='host names are resolved with a blocking call on the loop thread, and every other call of the client stands still meanwhile'
edits=[('anthunder/client/aio_client.py','''                reader, writer = await asyncio.open_connection(*address)
''','''                host = socket.gethostbyname(address[0])
                reader, writer = await asyncio.open_connection(host, address[1])
'''),('anthunder/client/aio_client.py','''import logging
import threading
import traceback
from contextlib''','''import logging
import socket
import threading
import traceback
from contextlib''')]
demo=open('/verif/tools/specs/_client.txt').read()+'''
def slow(real):
    def f(host, *a, **k):
        if host == 'slow.example':
            time.sleep(2)
            host = '127.0.0.1'
        return real(host, *a, **k)
    return f
socket.getaddrinfo = slow(socket.getaddrinfo)
socket.gethostbyname = slow(socket.gethostbyname)
def handler(s, n):
    while True:
        s.sendall(answer(request(s)))
a = peer(handler)
SERVICE_MAP['com.svc.A'] = a
SERVICE_MAP['com.svc.B'] = ('slow.example', a[1])
c = AioClient('app')
assert call(c) == b'ok'
threading.Thread(target=lambda: call(c, interface='com.svc.B', timeout_ms=8000), daemon=True).start()
time.sleep(0.3)
t = time.time()
assert call(c) == b'ok'
assert time.time() - t < 1, 'the loop stood still'
done()
'''
