id='c12-late-service-awaited'; prop='C12'
needs='a service that is still running when its time is over, while another request arrives'
breaks='the server waits for the late service on the loop thread before it reports the timeout'
edits=[('anthunder/listener/aio_listener.py','''        except (asyncio.CancelledError, asyncio.TimeoutError) as e:
            logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
''','''        except (asyncio.CancelledError, asyncio.TimeoutError) as e:
            if not future.cancelled():
                # it is running, its error is worth a line in the log
                e = future.exception() or e
            logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
''')]
demo=open('/verif/tools/specs/_server.txt').read()+'''
class Slow(BaseService):
    def echo(self, body):
        if body == b'slow':
            time.sleep(2.5)
        return body
listen(12341, {'s': Slow})
s = socket.create_connection(('127.0.0.1', 12341)); s.settimeout(10)
s.sendall(req(body=b'slow', timeout_ms=200).to_stream())
time.sleep(0.6)
s2 = socket.create_connection(('127.0.0.1', 12341)); s2.settimeout(10)
t = time.time()
s2.sendall(req(body=b'quick').to_stream())
assert response(s2).content == b'quick'
assert time.time() - t < 1, 'the loop stood still'
'''
