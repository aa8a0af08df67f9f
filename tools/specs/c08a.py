id='c08-falsy-result'; prop='C08'
needs='a service that returns None'
breaks='a result that can not be encoded is treated like a finished one-way call, and never answered'
edits=[('anthunder/listener/aio_listener.py','''        except (asyncio.CancelledError, asyncio.TimeoutError) as e:
''','''            if result is None:
                return
        except (asyncio.CancelledError, asyncio.TimeoutError) as e:
''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
class N(BaseService):
    def echo(self, body):
        return None
listen(12303, {'s': N})
s = socket.create_connection(('127.0.0.1', 12303)); s.settimeout(4)
a = req(timeout_ms=2000); s.sendall(a.to_stream()); r = response(s)
assert r.request_id == a.request_id and r.respstatus != 0, r
'''
