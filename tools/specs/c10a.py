id='c10-timeout-covers-service'; prop='C10'
needs='a service that fails with an OSError that is no timeout'
breaks='any OSError of the service is reported as TIMEOUT'
edits=[('anthunder/listener/aio_listener.py','''        except (asyncio.CancelledError, asyncio.TimeoutError) as e:
''','''        except (asyncio.CancelledError, asyncio.TimeoutError, OSError) as e:
''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
class F(BaseService):
    def echo(self, body):
        raise ConnectionRefusedError('database')
listen(12305, {'s': F})
s = socket.create_connection(('127.0.0.1', 12305)); s.settimeout(4)
a = req(); s.sendall(a.to_stream()); r = response(s)
assert r.respstatus not in (RESPSTATUS.TIMEOUT, RESPSTATUS.SUCCESS), r
'''
