id='c19-filed-before-checked'; prop='C19'
needs='a response that arrives after its call is over'
breaks='a response is filed before it is known whether anybody waits for it, and a late one stays for ever'
edits=[('anthunder/client/aio_client.py', '                if pkg.request_id not in self.request_mapping:\n                    continue\n                self.response_mapping[pkg.request_id] = pkg\n', '                self.response_mapping[pkg.request_id] = pkg\n                if pkg.request_id not in self.request_mapping:\n                    continue\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    r = request(s)
    s.sendall(answer(r))
    while True:
        r = request(s)
        time.sleep(0.6)
        s.sendall(answer(r))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
size = lambda: sum(len(v) for v in vars(c).values() if isinstance(v, dict))
call(c)
time.sleep(0.2)
n = size()
for i in range(2):
    try:
        call(c, timeout_ms=200)
    except Exception:
        pass
    time.sleep(1)
assert size() <= n, 'entries left: %d' % (size() - n)
done()
'''
