id='c16-only-caller-gets-it'; prop='C16'
needs='a response that arrives after its call timed out, while one other call is pending'
breaks='a response nobody waits for is given to the only call that is pending'
edits=[('anthunder/client/aio_client.py', '                if pkg.request_id not in self.request_mapping:\n                    continue\n                self.response_mapping[pkg.request_id] = pkg\n', '                if request_id not in self.request_mapping:\n                    if len(self.request_mapping) != 1:\n                        continue\n                    # some peers do not echo the id\n                    request_id = next(iter(self.request_mapping))\n                self.response_mapping[request_id] = pkg\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    a = request(s)
    b = request(s)
    s.sendall(answer(a, b'first'))
    time.sleep(0.2)
    s.sendall(answer(b, b'second'))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
try:
    call(c, timeout_ms=400)
except Exception:
    pass
assert call(c) == b'second'
done()
'''
