id='c24-at-least-a-second'; prop='C24'
needs='a request that announces a timeout below one second to a service that takes longer'
breaks='the server gives every service at least a second'
edits=[('anthunder/listener/aio_listener.py', '            result = await asyncio.wait_for(afut, timeout_ms / 1000 if timeout_ms > 0 else None)\n', '            result = await asyncio.wait_for(afut, max(timeout_ms / 1000, 1) if timeout_ms > 0 else None)\n')]
demo=open('/verif/tools/specs/_server.txt').read()+'''

class Slow(BaseService):
    def echo(self, body):
        time.sleep(0.6)
        return body
listen(12343, {'s': Slow})
s = socket.create_connection(('127.0.0.1', 12343)); s.settimeout(10)
s.sendall(req(timeout_ms=150).to_stream())
assert response(s).respstatus == RESPSTATUS.TIMEOUT
'''
