id='c07-failure-id-shared'; prop='C07'
needs='a slow failing request, and another request on the same listener that arrives before it fails'
breaks='the failure reply of a service that raised takes the id from the listener, which a later request has overwritten'
edits=[('anthunder/listener/aio_listener.py','''        if PTYPE.ONEWAY == call_type:
            # Just return future
            return future
''','''        if PTYPE.ONEWAY == call_type:
            # Just return future
            return future
        self._serving = request_id
'''),
('anthunder/listener/aio_listener.py','''        except Exception:
            logger.error(traceback.format_exc())
            await self._write_fail(writer, call_type, request_id, RESPSTATUS.UNKNOWN)
            return
''','''        except Exception:
            logger.error(traceback.format_exc())
            await self._write_fail(writer, call_type, self._serving, RESPSTATUS.UNKNOWN)
            return
''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
class Slow(BaseService):
    def echo(self, body):
        time.sleep(float(body.decode()))
        if body == b'0.8': raise ValueError
        return body
listen(12302, {'s': Slow})
s = socket.create_connection(('127.0.0.1', 12302)); s.settimeout(8)
a, b = req(body=b'0.8'), req(body=b'0.1')
s.sendall(a.to_stream()); time.sleep(0.2); s.sendall(b.to_stream())
got = sorted(response(s).request_id for _ in range(2))
assert got == sorted([a.request_id, b.request_id]), got
'''
