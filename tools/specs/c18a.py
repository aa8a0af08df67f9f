id='c18-unknown-is-fine'; prop='C18'
needs='a response with status UNKNOWN to the blocking client'
breaks='a failure response with status UNKNOWN is returned as content'
edits=[('anthunder/client/client.py', '        if resp.respstatus != RESPSTATUS.SUCCESS:\n', '        if resp.respstatus not in (RESPSTATUS.SUCCESS, RESPSTATUS.UNKNOWN):\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    while True:
        s.sendall(failure(request(s), RESPSTATUS.UNKNOWN))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = Client('app')
try:
    r = call(c)
except Exception as e:
    assert 'UNKNOWN' in str(e), e
else:
    raise SystemExit('a failure returned %r' % r)
done()
'''
