id='c24-announced-in-seconds'; prop='C24'
needs='any call of the blocking client to a server that honours the timeout'
breaks='the blocking client announces its timeout in seconds'
edits=[('anthunder/client/client.py', 'timeout_ms=timeout_ms or -1, ptype=bolt_ptype)', 'timeout_ms=int((timeout_ms or 0) // 1000) or -1, ptype=bolt_ptype)')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

GOT = []
def handler(s, n):
    while True:
        r = request(s)
        GOT.append(r.timeout)
        s.sendall(answer(r))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = Client('app')
call(c, timeout_ms=2500)
assert GOT == [2500], GOT
done()
'''
