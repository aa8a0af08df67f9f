id='c23-bad-acknowledgement-ends-it'; prop='C23'
needs='a heartbeat that is acknowledged with a failure status'
breaks='the heartbeats end with the first one that is not acknowledged with SUCCESS'
edits=[('anthunder/client/aio_client.py', '        while True:\n            await asyncio.sleep(interval)\n            try:\n                await asyncio.wait_for(self.invoke_heartbeat(address), interval)\n', '        alive = True\n        while alive:\n            await asyncio.sleep(interval)\n            try:\n                alive = await asyncio.wait_for(self.invoke_heartbeat(address), interval)\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

import requests
class Resp(object):
    status_code, ok = 200, True
    def json(self): return {'success': True}
requests.Session.post = lambda self, url, json=None, **kw: Resp()
real = asyncio.sleep
asyncio.sleep = lambda d, *a: real(min(d, 0.2), *a)
BEATS = []
def handler(s, n):
    from anthunder.command.heartbeat import HeartbeatResponse
    while True:
        h = exact(s, 22)
        d = BoltRequest.bolt_header_from_stream(h)
        exact(s, d['class_len'] + d['header_len'] + d['content_len'])
        BEATS.append(d)
        m = bytearray(HeartbeatResponse.response_to(d['request_id']).to_stream())
        if len(BEATS) == 2:
            m[10:12] = struct.pack('>h', 1)
        s.sendall(bytes(m))
AioClient.mesh_service_address = peer(handler)
c = AioClient('app')
time.sleep(3)
assert len(BEATS) > 4, '%d heartbeats' % len(BEATS)
done()
'''
