id='c16-registered-after-the-write'; prop='C16'
needs='a response that arrives while its request is still being written'
breaks='the caller is registered only after its request was written, and a response that is quicker than that is dropped'
edits=[('anthunder/client/aio_client.py', '            event = self.request_mapping[request.request_id] = asyncio.Event()\n            self.inflight_mapping[request.request_id] = writer\n            try:\n                await writer.drain()  # avoid back pressure\n                writer.write(msg)\n                await writer.drain()\n', '            event = asyncio.Event()\n            self.inflight_mapping[request.request_id] = writer\n            try:\n                await writer.drain()\n                writer.write(msg)\n                await writer.drain()\n                # sent, wait for its response\n                self.request_mapping[request.request_id] = event\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    while True:
        h = exact(s, 22)
        d = BoltRequest.bolt_header_from_stream(h)
        s.sendall(BoltResponse.response_to(b'quick', request_id=d['request_id']).to_stream())
        time.sleep(0.3)
        exact(s, d['class_len'] + d['header_len'] + d['content_len'])
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
assert call(c) == b'quick'
assert call(c, b'z' * 20000000, 6000) == b'quick'
done()
'''
