id='c17-id-zero'; prop='C17'
needs='a request whose id is 0, which comes round once in 2**31 requests'
breaks='the response to a request with id 0 is taken for a frame whose header could not be read, and wakes nobody'
edits=[('anthunder/client/aio_client.py', '            finally:\n                with suppress(AttributeError, KeyError):\n                    # wake up the coro\n                    event = self.request_mapping.pop(request_id)\n                    event.set()\n', '            finally:\n                if request_id and request_id in self.request_mapping:\n                    # wake up the coro\n                    event = self.request_mapping.pop(request_id)\n                    event.set()\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    while True:
        s.sendall(answer(request(s)))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
for i in (7, 0):
    p = BoltRequest.new_request(SofaHeader(service='com.svc.A'), b'x')
    p.request_id = i
    assert on_loop(c, c.invoke(p)).content == b'ok'
done()
'''
