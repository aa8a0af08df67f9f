id='c22-empty-notification'; prop='C22'
needs='a one-way call of the blocking client with empty content'
breaks='a one-way call without content is sent as a request that is answered, and its connection goes back with the answer on it'
edits=[('anthunder/client/client.py', '        p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)\n', '        p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype if content else PTYPE.REQUEST)\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

GOT = []
def handler(s, n):
    while True:
        GOT.append(request(s))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = Client('app')
for x in (b'note', b''):
    c.invoke_oneway('com.svc.A', 'method', x, spanctx=spanctx())
time.sleep(0.5)
assert [r.ptype for r in GOT] == [PTYPE.ONEWAY, PTYPE.ONEWAY], GOT
done()
'''
