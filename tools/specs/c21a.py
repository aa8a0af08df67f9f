id='c21-no-second-look'; prop='C21'
needs='several first calls to one address at the same time'
breaks='a call that waited for the dial of another one dials again'
edits=[('anthunder/client/aio_client.py', '            async with self._pending_dial.setdefault(address, asyncio.Lock()):\n                if address in self.connection_mapping:\n                    return self.connection_mapping[address]\n\n', '            async with self._pending_dial.setdefault(address, asyncio.Lock()):\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    while True:
        s.sendall(answer(request(s)))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
async def three():
    ps = [BoltRequest.new_request(SofaHeader(service='com.svc.A'), b'x') for _ in range(3)]
    return await asyncio.gather(*[c.invoke(p) for p in ps])
on_loop(c, three())
time.sleep(0.5)
assert len(CONNS) == 1, '%d connections' % len(CONNS)
done()
'''
